"""Introspection: contributions and strides along a dimension (C21); lower bounds, contiguity, uniformity (C22)."""
import itertools
import random
import re
from ..core import Eq, Wit, Neg, Group, bindings
from ..model import *
from ..gen import *
from .layout import PRE, H, SLICES, BLOCKS, OTHER, stacks, base_cases, tuple_views, wide_orders, wide_tuples, vec5
from .bag import states
from .static import fold
from .trav import to_base

IPRE = PRE + '''#include <noarr/introspection.hpp>
#include <noarr/structures/introspection/offset_along.hpp>
#include <noarr/structures/introspection/stride_along.hpp>
#include <noarr/structures/structs/zcurve.hpp>
'''
OA = H + 'introspection/offset_along.hpp: offset_along'
SA = H + 'introspection/stride_along.hpp: stride_along'


def cases(th, deep_n):
    bs = bases()
    out = [(n, s, b, ()) for n, s in bs for b in [s]]
    V = SLICES + BLOCKS + OTHER
    for n, b in bs[:4]:
        out += [(m, s, b, vs) for m, s, vs in stacks(V, 1, [(n, b)])]
    deep = [(m, s, b, vs) for n, b in bs[:2] for m, s, vs in stacks(V, 2, [(n, b)]) if vs != ('static', 'static')]
    random.Random(21).shuffle(deep)
    return out + deep[:deep_n]


def leaves(assign, d=None):
    """the static indices only (tuple alternatives, border), without d"""
    return [(x, 'noarr::lit<%d>' % k) for x, k in assign if k is not None and x != d]


def along_obs(name, s, vs, strides=True):
    obs = []
    for j, assign in enumerate(itertools.islice(walk_dims(s), 4)):
        idx, cs, ip = idx_exprs(assign)
        ds = [d for d, _ in assign]
        pre = s.pre + range_pre(s, assign)
        for a, (d, k) in enumerate(assign):
            key = '%s_%d_%s' % (name, j, d)
            L = s.length(d, {x: idx[x] for x in ds[:a]})
            ix, cx, px = dict(idx), list(cs), list(ip)
            if k is None:
                oc = oi = 'o' + d
                opre = ['%s < %s' % (oc, py(L))] if L else []
                px.append(oc)
                keep = pre
            elif 'tuple' in vs and 'rev' in name:
                continue    # position 0 is another element of each alternative
            else:
                # a tuple alternative or the border: only positions valid for both
                oc, oi, opre = 'noarr::lit<0>', 'u64(0)', []
                keep = list(pre)
                for x, kk in assign[a + 1:]:
                    if kk is None:
                        ix[x] = 'u64(0)'
                        cx[ds.index(x)] = 'u64(0)'
                        px.remove('i' + x)
                        keep = [c for c in keep if not re.search(r'\bi%s\b' % x, c)]
            st = states(ds, cx)
            st2 = states(ds, [oc if x == d else c for x, c in zip(ds, cx)])
            try:
                spec = '(%s) - (%s)' % (s.off(ix), s.off(dict(ix, **{d: oi})))
            except KeyError:
                continue    # the alternatives do not have the same dimensions
            obs.append(Eq('oa_' + key, s.params + px, "auto S_ = %s; return u64(noarr::offset_along<'%s'>(S_, %s)) - u64(noarr::offset_along<'%s'>(S_, %s));" % (s.cpp, d, st, d, st2),
                          'return %s;' % spec, keep + opre, what='change of offset_along of %s in %s' % (d, s.cpp), anchor=OA))
            if k is None and strides:
                spec = '(%s) - (%s)' % (s.off(dict(idx, **{d: '(i%s+u64(1))' % d})), s.off(idx))
                Lp = ['i%s + 1 < %s' % (d, py(L))] if L else []
                # KF3: the stride of any dimension of a stepped structure is multiplied by the step
                asis = 'return (%s) * u64(%s);' % (spec, s.step.spec) if isinstance(s, Step) and s.d != d else None
                if not list(bindings(s.params + ip, pre + Lp, {}, 1, 1)):
                    continue    # never two positions
                lv = leaves(assign)
                obs.append(Eq('sa_' + key, s.params + ip, "auto S_ = %s; return u64(noarr::stride_along<'%s'>(S_, %s));" % (s.cpp, d, states([x for x, _ in lv], [c for _, c in lv])),
                              'return %s;' % spec, pre + Lp, what='stride_along of %s in %s' % (d, s.cpp), anchor=SA, asis=asis))
                if not set(vs) & set(BLOCKS):
                    rest = [(x, c) for x, c in zip(ds, cs) if x != d]
                    obs.append(Eq('sf_' + key, s.params + ip, "auto S_ = %s; return u64(noarr::stride_along<'%s'>(S_, %s));" % (s.cpp, d, states([x for x, _ in rest], [c for _, c in rest])),
                                  'return %s;' % spec, pre + Lp, what='stride_along of %s in %s, other indices given' % (d, s.cpp), anchor=SA, asis=asis))
    return obs


def gone_obs(name, s, b):
    """names that were renamed, joined, fixed or split away, and names never there, have no offset and no stride"""
    obs = []
    there = {d for a in walk_dims(s) for d, _ in a}
    for d in sorted({x for a in walk_dims(b) for x, _ in a} - there) + ['q']:
        for j, assign in enumerate(itertools.islice(walk_dims(s), 2)):
            idx, cs, ip = idx_exprs(assign)
            st = states([x for x, _ in assign], cs)
            std = states([x for x, _ in assign] + [d], cs + ['u64(0)'])
            lv = leaves(assign)
            sl = states([x for x, _ in lv], [c for _, c in lv])
            decl = 'auto S_ = %s; ' % s.cpp
            decl = ''.join('u64 %s = 1; ' % p for p in s.params + ip) + decl + 'auto st_ = %s; auto sd_ = %s; auto sl_ = %s; using T_ = decltype(S_); ' % (st, std, sl)
            obs.append(Wit('no_%s_%d_%s' % (name, j, d), decl + ''.join("static_assert(!noarr::HasOffsetAlong<T_, '%s', decltype(%s)>, \"offset along %s\"); static_assert(!noarr::HasStrideAlong<T_, '%s', decltype(%s)>, \"stride along %s\");" % (d, x, d, d, x, d) for x in ('st_', 'sd_', 'sl_')),
                           'offset_along/stride_along of %s, which %s does not have' % (d, s.cpp), OA))
    return obs


def mk_along(tier):
    th = tier == 'thorough'
    obs = []
    cs = cases(th, 400 if th else 30)
    V = SLICES + BLOCKS + OTHER
    Num.LITS = dict(n=6, l=5, b0=1, k0=3, e0=4, t0=2, m0=2, g0=2, w0=1)
    cs += [('lit_' + n, s, b, vs) for nb, b in bases()[:2] for n, s, vs in stacks(V, 1, [(nb, b)])]
    Num.LITS = {}
    I = Scalar('int')
    b2 = dict(bases())['v2']
    cs += [('join_' + n, s, b2, ('join',)) for n, s in [('xy', Join(b2, 'x', 'y', 'z')), ('yx', Join(b2, 'y', 'x', 'z')), ('xyx', Join(b2, 'x', 'y', 'x'))]]
    v3 = dict(bases())['v3']
    cs += [('joinr_' + n, apply_view(v, Join(v3, 'x', 'y', 'A'), d), v3, ('join',)) for v in ('shift', 'reverse', 'slice', 'rename') for d in ('A', 'z') for n in [v + d]]
    cs += [(n, s, s, ('merge', 'tuple')) for n, s in tuple_views()]
    cs += [(n, s, b, ('w', 'w')) for n, s, b in wide_orders(1 if not th else 10, ('shift', 'rev', 'fix', 'hoist', 'rcyc', 'rnew', 'rmix'))]
    cs += [(n, s, s, ('merge', 'tuple')) for n, s in wide_tuples()]
    for name, s, b, vs in cs:
        obs += along_obs(name, s, vs, 'merge' not in vs and not (len(vs) > 1 and 'step' in vs and len(s.dims()) > 1) and not ('fix' in vs and set(vs) & set(BLOCKS)))
        if len(vs) < 2 and 'fix' not in vs:
            obs += gone_obs(name, s, b)
    return [Group(IPRE, obs)]


# ------------------------------------------------------------------ lower bounds
LA = H + 'introspection/lower_bound_along.hpp: '
NOLB = {'step', 'join', 'zcurve', 'vector', 'merge'}
POS = 'POS_'


def contribution(s, b, assign, d):
    """offset of position POS_ of dimension d, everything else being at 0 in the base"""
    idx = {x: ('u64(%d)' % k if k is not None and x != d else 'u64(0)') for x, k in assign}
    idx[d] = POS
    bi = to_base(s, b, idx)
    if not any(re.search(r'\b%s\b' % POS, e) for e in bi.values()):
        return None     # a broadcast
    return b.off({x: (e if re.search(r'\b%s\b' % POS, e) else 'u64(0)') for x, e in bi.items()})


def at(c, e):
    return re.sub(r'\b%s\b' % POS, lambda m: '(%s)' % e, c)


def lower_obs(name, s, b, vs):
    obs = []
    for j, assign in enumerate(itertools.islice(walk_dims(s), 3)):
        for d, k in assign:
            if k is not None:
                continue
            a = [x for x, _ in assign].index(d)
            L = s.length(d, {x: 'u64(%d)' % kk for x, kk in assign[:a] if kk is not None})
            if L is None:
                continue
            c = contribution(s, b, assign, d)
            if c and 'static' in vs:
                c = '(%s) - (%s)' % (c, at(c, 'u64(0)'))    # within the body or the border
            lv = leaves(assign)
            st = states([x for x, _ in lv], [e for _, e in lv])
            key = '%s_%d_%s' % (name, j, d)
            up = True
            if c is not None:
                env = next(iter(bindings(s.params, s.pre + ['%s > 1' % py(L)] + [p + ' > 1' for p in s.params if p in ('n', 'm', 'l')], {}, 1, 1)), None)
                if env is None:
                    continue
                x, y = fold(at(c, 'u64(0)'), env), fold(at(c, 'u64(1)'), env)
                up = x <= y
            z, last = 'u64(0)', '((%s)-u64(1))' % L
            decl = 'auto S_ = %s; auto st_ = %s; ' % (s.cpp, st)
            ne = s.pre + ['%s > 0' % py(L)]
            rg = s.pre + ['mn < en', 'en <= %s' % py(L)]
            for kind, ps, args, lo, hi, pre in (('w', [], '', z, last, ne), ('r', ['mn', 'en'], ', mn, en', 'mn', '(en-u64(1))', rg)):
                if ps and next(iter(bindings(s.params + ps, pre + ['en > 1'], {}, 1, 1)), None) is None:
                    continue    # never more than one position
                w = lo if up else hi
                obs.append(Eq('lb_%s_%s' % (kind, key), s.params + ps, decl + "return u64(noarr::lower_bound_along<'%s'>(S_, st_%s));" % (d, args),
                              'return %s;' % (at(c, w) if c else z), pre, what='lower bound along %s of %s%s' % (d, s.cpp, ' in [mn, en)' if ps else ''), anchor=LA + 'lower_bound_along'))
                if c:
                    obs.append(Eq('la_%s_%s' % (kind, key), s.params + ps, decl + "return u64(noarr::lower_bound_at<'%s'>(S_, st_%s));" % (d, args),
                                  'return %s;' % w, pre, what='position of the lower bound along %s of %s%s' % (d, s.cpp, ' in [mn, en)' if ps else ''), anchor=LA + 'lower_bound_at'))
    return obs


def mk_lower(tier):
    th = tier == 'thorough'
    bs = bases()
    obs = []
    V = [v for v in SLICES + BLOCKS + OTHER if v not in NOLB]
    cs = [(n, s, s, ()) for n, s in bs]
    for n, b in bs[:4]:
        cs += [(m, s, b, vs) for m, s, vs in stacks(V, 1, [(n, b)])]
    W = [v for v in SLICES + OTHER if v not in NOLB]
    deep = [(m, s, b, vs) for n, b in bs[:2] for m, s, vs in stacks(W, 2, [(n, b)])]
    random.Random(22).shuffle(deep)
    mono = [x for x in deep if set(x[3]) <= {'shift', 'slice', 'span', 'reverse', 'symspan'}]
    cs += deep if th else mono + [x for x in deep if x not in mono][:40]
    cs += [(n, s, b, ('w', 'w')) for n, s, b in wide_orders(1 if not th else 10, ('shift', 'rev', 'fix', 'hoist', 'rcyc', 'rnew', 'rmix'))]
    for name, s, b, vs in cs:
        obs += lower_obs(name, s, b, vs)
        if len(vs) == 1:
            there = {d for a in walk_dims(s) for d, _ in a}
            decl = ''.join('u64 %s = 1; ' % p for p in s.params) + 'auto S_ = %s; using T_ = decltype(S_); ' % s.cpp
            for d in sorted({x for a in walk_dims(b) for x, _ in a} - there) + ['q']:
                obs.append(Wit('no_%s_%s' % (name, d), decl + "static_assert(!noarr::HasLowerBoundAlong<T_, '%s', noarr::state<>>);" % d,
                               'lower_bound_along of %s, which %s does not have' % (d, s.cpp), LA + 'lower_bound_along'))
            for d in sorted(there if not set(vs) & set(BLOCKS) else ()):
                st = states([d], ['noarr::lit<0>'])
                obs.append(Wit('ix_%s_%s' % (name, d), decl + "auto st_ = %s; static_assert(!noarr::HasLowerBoundAlong<T_, '%s', decltype(st_)>);" % (st, d),
                               'lower_bound_along of %s, whose index is given, in %s' % (d, s.cpp), LA + 'lower_bound_along'))
    return [Group(IPRE + '#include <noarr/structures/introspection/lower_bound_along.hpp>\n', obs)]
