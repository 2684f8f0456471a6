"""The state algebra: a state is a finite map tag -> value; every operation is the map operation it is documented to be."""
import itertools
import random
from ..core import Eq, Wit, Neg, Group
from .layout import PRE, H

A = H + 'base/state.hpp'
SH = H + 'extra/shortcuts.hpp'
TAGS = ['ix', 'iy', 'iz', 'lx', 'ly']


def tag(t):
    return "noarr::%s_in<'%s'>" % (dict(i='index', l='length')[t[0]], t[1])


class St:
    """items: list of (tag, value) with value a parameter name or an int (a static item)"""

    def __init__(self, items):
        self.items = list(items)

    def expr(self):
        if not self.items:
            return 'noarr::empty_state'
        return 'noarr::make_state<%s>(%s)' % (', '.join(tag(t) for t, _ in self.items), ', '.join(self.v(v) for _, v in self.items))

    @staticmethod
    def v(x):
        return 'noarr::lit<%d>' % x if isinstance(x, int) else x

    def map(self):
        return {t: ('u64(%d)' % v if isinstance(v, int) else v) for t, v in self.items}

    def params(self):
        return [v for _, v in self.items if not isinstance(v, int)]


def observe(result, keys):
    """code printing exactly the items of `result` (and asserting which tags it has)"""
    o = []
    for i, t in enumerate(TAGS):
        o.append('static_assert(%snoarr::state_contains<decltype(%s), %s>);' % ('' if t in keys else '!', result, tag(t)))
        if t in keys:
            o.append('sink2(%d, u64(%s.template get<%s>()));' % (i, result, tag(t)))
    return ' '.join(o)


def expect(m):
    return ' '.join('sink2(%d, %s);' % (i, m[t]) for i, t in enumerate(TAGS) if t in m)


def ob_state(id, params, code, m, what, anchor=A, decls=''):
    return Eq(id, params, 'auto r_ = %s; %s' % (code, observe('r_', m)), expect(m), ret='void', what=what, anchor=anchor, decls=decls)


def some_states(p, thorough):
    """a fixed selection of shapes; parameters are prefixed with p"""
    n = dict(ix='a', iy='b', iz='c', lx='d', ly='e')
    D = lambda *ts: St([(t, p + n[t]) for t in ts])
    L = lambda *tv: St([(t, (p + n[t]) if v is None else v) for t, v in tv])
    off = 0 if p == 'p' else 3
    out = [('e', D()), ('x', D('ix')), ('y', D('iy')), ('xy', D('ix', 'iy')), ('yx', D('iy', 'ix')), ('xyz', D('ix', 'iy', 'iz')),
           ('zxy', D('iz', 'ix', 'iy')), ('xl', D('ix', 'lx')), ('l', D('lx')), ('lyx', D('ly', 'lx', 'ix')),
           ('xS', L(('ix', 2 + off))), ('xSy', L(('ix', 2 + off), ('iy', None))), ('yxS', L(('iy', None), ('ix', 7 - off))), ('xSyS', L(('ix', 4), ('iy', 1 + off))), ('xS0', L(('ix', 0)))]
    out += [('all', D(*TAGS)), ('rev', D(*reversed(TAGS)))]
    if thorough:
        out += [('z', D('iz')), ('xz', D('ix', 'iz')), ('zyx', D('iz', 'iy', 'ix')),
                ('zyS', L(('iz', None), ('iy', 5))), ('lxS', L(('lx', 8), ('ix', None)))]
    return out


def mk(tier):
    th = tier == 'thorough'
    obs = []
    SA, SB = some_states('p', th), some_states('q', th)
    for (na, a), (nb, b) in itertools.product(SA, SB):
        ma, mb = a.map(), b.map()
        ps = a.params() + b.params()
        nm = '%s__%s' % (na, nb)
        w = '%s op %s' % (a.expr().replace('noarr::', ''), b.expr().replace('noarr::', ''))
        m = dict(ma)
        m.update(mb)
        obs.append(ob_state('and_' + nm, ps, '(%s) & (%s)' % (a.expr(), b.expr()), m, '& merges, the right operand wins: ' + w, A + ': operator&, state::with'))
        for op, on in (('+', 'add'), ('-', 'sub')):
            m = {}
            for t in TAGS:
                if t in ma and t in mb:
                    m[t] = '%s %s %s' % (ma[t], op, mb[t])
                elif t in ma:
                    m[t] = ma[t]
                elif t in mb:
                    m[t] = '%s%s' % ('u64(0) - ' if op == '-' else '', mb[t])
            obs.append(ob_state(on + '_' + nm, ps, '(%s) %s (%s)' % (a.expr(), op, b.expr()), m, 'item-wise, a missing item counts as 0: ' + w, A + ': operator' + op))
        def le(x, y):
            if any(t not in y for t in x):
                return 'false'
            return '(%s)' % (' && '.join('%s <= %s' % (x[t], y[t]) for t in x) or 'true')
        def eq(x, y):
            if set(x) != set(y):
                return 'false'
            return '(%s)' % (' && '.join('%s == %s' % (x[t], y[t]) for t in x) or 'true')
        spec = [eq(ma, mb), '!' + eq(ma, mb), le(ma, mb), le(mb, ma), '(%s && !%s)' % (le(ma, mb), eq(ma, mb)), '(%s && !%s)' % (le(mb, ma), eq(mb, ma))]
        ops = ['==', '!=', '<=', '>=', '<', '>']
        obs.append(Eq('cmp_' + nm, ps, 'auto a_ = %s; auto b_ = %s; return %s;' % (a.expr(), b.expr(), ' | '.join('(u64(a_ %s b_) << %d)' % (o, i) for i, o in enumerate(ops))),
                      'return %s;' % ' | '.join('(u64(%s) << %d)' % (s, i) for i, s in enumerate(spec)), what='comparisons are item-wise: ' + w, anchor=A + ': operator==, <=, <'))
    for na, a in SA:
        ma, ps = a.map(), a.params()
        obs.append(ob_state('make_' + na, ps, a.expr(), ma, 'make_state(%s)' % a.expr()))
        if all(t[0] == 'i' for t in ma) and ma:
            e = 'noarr::idx<%s>(%s)' % (', '.join("'%s'" % t[1] for t, _ in a.items), ', '.join(St.v(v) for _, v in a.items))
            obs.append(ob_state('idx_' + na, ps, e, ma, e, SH + ': idx'))
        obs.append(ob_state('neg_' + na, ps, '-(%s)' % a.expr(), {t: 'u64(0) - ' + v for t, v in ma.items()}, 'unary - negates every item', A + ': operator-'))
        obs.append(ob_state('pos_' + na, ps, '+(%s)' % a.expr(), ma, 'unary + is the identity', A + ': operator+'))
        sels = [c for r in (1, 2, 3, 4, 5) for c in itertools.permutations(TAGS, r)]
        random.Random(7).shuffle(sels)
        sels = sorted([c for k in (1, 2, 3, 4, 5) for c in [d for d in sels if len(d) == k][:14 if th else 4]], key=lambda c: (len(c), c))
        for c in sels:
            cn = ''.join(c)
            tg = ', '.join(map(tag, c))
            obs.append(ob_state('rem_%s_%s' % (na, cn), ps, '(%s).template remove<%s>()' % (a.expr(), tg), {t: v for t, v in ma.items() if t not in c}, 'remove', A + ': state::remove'))
            obs.append(ob_state('fil_%s_%s' % (na, cn), ps, '(%s).template filter<%s>()' % (a.expr(), tg), {t: v for t, v in ma.items() if t in c}, 'filter', A + ': state::filter'))
            m = dict(ma)
            nv = ['w%d' % i if i != 1 else '9' for i in range(len(c))]
            m.update({t: v if v != '9' else 'u64(9)' for t, v in zip(c, nv)})
            obs.append(ob_state('with_%s_%s' % (na, cn), ps + [x for x in nv if x != '9'], '(%s).template with<%s>(%s)' % (a.expr(), tg, ', '.join('noarr::lit<9>' if x == '9' else x for x in nv)),
                                m, 'with', A + ': state::with'))
        for c in [c for r in (1, 2) for c in itertools.permutations('xyz', r)]:
            for k, fn, ff in (('i', 'indices', 'filter_indices'), ('l', 'lengths', 'filter_lengths')):
                m = {t: v for t, v in ma.items() if t[0] == k and t[1] in c}
                obs.append(ob_state('%s_%s_%s' % (ff, na, ''.join(c)), ps, 'noarr::%s<%s>(%s)' % (ff, ', '.join("'%s'" % d for d in c), a.expr()), m, ff, SH + ': ' + ff))
        for k, one, many in (('i', 'get_index', 'get_indices'), ('l', 'get_length_in', 'get_lengths_in')):
            ds = [t[1] for t in ma if t[0] == k]
            for r in (1, 2, 3):
                for c in itertools.permutations(ds, r):
                    call = 'noarr::%s<%s>(s_)' % (many, ', '.join("'%s'" % d for d in c))
                    obs.append(Eq('%s_%s_%s' % (many, na, ''.join(c)), ps,
                                  'auto s_ = %s; auto t_ = %s; static_assert(std::tuple_size_v<decltype(t_)> == %d); %s %s' % (
                                      a.expr(), call, len(c), ' '.join('sink2(%d, std::get<%d>(t_));' % (i, i) for i in range(len(c))),
                                      'sink(noarr::%s<\'%s\'>(s_));' % (one, c[0])),
                                  ' '.join('sink2(%d, %s);' % (i, ma[k + d]) for i, d in enumerate(c)) + ' sink(%s);' % ma[k + c[0]], ret='void', what=many, anchor=SH))
        ds = [t[1] for t in ma if t[0] == 'i']
        for d in ds:
            v = ma['i' + d]
            m = dict(ma)
            m['i' + d] = '%s * 3 + %s + k' % (v, v)
            obs.append(ob_state('upd_%s_%s' % (na, d), ps + ['k'], "noarr::update_index<'%s'>(%s, [k](auto i_) { return i_ * 3 + i_ + k; })" % (d, a.expr()), m, 'update_index', SH + ': update_index'))
            m['i' + d] = 'u64(11)'
            obs.append(ob_state('updlit_%s_%s' % (na, d), ps, "noarr::update_index<'%s'>(%s, [](auto) { return noarr::lit<11>; })" % (d, a.expr()), m, 'update_index to a static value', SH + ': update_index'))
        dyn = [t[1] for t, v in a.items if t[0] == 'i' and not isinstance(v, int)]
        for r in (1, 2, 3):
            for c in itertools.permutations(dyn, r):
                m = dict(ma)
                for i, d in enumerate(c):
                    m['i' + d] = '%s + %s' % (ma['i' + d], 'k%d' % i)
                for cn, cv in (('u', 'k%d'), ('s', 'std::ptrdiff_t(k%d)')):
                    obs.append(ob_state('nb%s_%s_%s' % (cn, na, ''.join(c)), ps + ['k%d' % i for i in range(r)], 'noarr::neighbor<%s>(%s, %s)' % (
                        ', '.join("'%s'" % d for d in c), a.expr(), ', '.join(cv % i for i in range(r))), m, 'neighbor', SH + ': neighbor'))
                m = dict(ma)
                for i, d in enumerate(c):
                    m['i' + d] = '%s + u64(%d)' % (ma['i' + d], (-1 if i % 2 == 0 else 2) % 2**64)
                obs.append(ob_state('nbc_%s_%s' % (na, ''.join(c)), ps, 'noarr::neighbor<%s>(%s, %s)' % (
                    ', '.join("'%s'" % d for d in c), a.expr(), ', '.join('-1' if i % 2 == 0 else '+2' for i in range(r))), m, 'neighbor', SH + ': neighbor'))
    out = [Group(PRE, obs, batch=40)]
    return out
