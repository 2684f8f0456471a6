"""Layouts, views and their composition: offset / size / length of every structure."""
import itertools
from ..core import Eq, Wit, Group, Prop
from ..model import *
from ..gen import *

SIGDEF = '''
template<class Sig, auto... Ds> constexpr bool sig_is = false;
template<class T> constexpr bool sig_is<noarr::scalar_sig<T>> = true;
template<class T> constexpr bool sig_is<noarr::scalar_sig<T>, 0> = true;
template<auto D, class A, class R, auto... Ds> constexpr bool sig_is<noarr::function_sig<D, A, R>, D, Ds...> = sig_is<R, Ds...>;
'''
PRE = '#include <noarr/structures_extended.hpp>\n#include <noarr/structures/interop/bag.hpp>\n' + SIGDEF
H = 'include/noarr/structures/'


def base_cases():
    out = []
    for t in ('char', 'short', 'int', 'float', 'double'):
        out.append(('s_' + t, Scalar(t)))
        out.append(('v_' + t, SizedVector(Scalar(t), 'x', N('n'))))
    for i, t in enumerate(('nvn_s12', 'nvn_s3', 'nvn_a32', 'nvn_e2', 'long double', 'bool', 'void *', 'const int')):
        out.append(('se%d' % i, Scalar(t)))
        out.append(('ve%d' % i, SizedVector(SizedVector(Scalar(t), 'x', N('n')), 'y', N('m'), i % 3)))
        out.append(('te%d' % i, Tuple('t', SizedVector(Scalar(t), 'x', N('n')), Scalar(t), SizedVector(Scalar(t), 'y', N('m')))))
    for f in range(3):
        out.append(('vf%d' % f, SizedVector(SizedVector(Scalar('int'), 'x', N('n'), f), 'y', N('m'), f)))
    out.append(('arr', SizedVector(SizedVector(Scalar('int'), 'x', LIT(5), 3), 'y', N('m'))))
    out.append(('arr2', SizedVector(SizedVector(Scalar('double'), 'x', N('n')), 'y', LIT(3), 3)))
    out.append(('v3', SizedVector(SizedVector(SizedVector(Scalar('float'), 'x', N('n')), 'y', N('m')), 'z', N('l'))))
    out.append(('v4', SizedVector(SizedVector(SizedVector(SizedVector(Scalar('short'), 'x', N('n')), 'y', N('m')), 'z', N('l')), 'w', N('k'))))
    # lengths set later, in either order
    a = Vector(Vector(Scalar('int'), 'x'), 'y')
    out.append(('late_xy', SetLength(SetLength(a, 'x', N('n')), 'y', N('m'))))
    out.append(('late_yx', SetLength(SetLength(a, 'y', N('m')), 'x', N('n'))))
    out.append(('bc', Bcast(SizedVector(Scalar('int'), 'x', N('n')), 'y', N('m'))))
    out.append(('bc_in', SizedVector(Bcast(Scalar('int'), 'y', N('m')), 'x', N('n'))))
    out.append(('bc_mid', SizedVector(Bcast(SizedVector(Scalar('double'), 'x', N('n')), 'y', N('m')), 'z', N('l'))))
    out.append(('bc_late', SetLength(Bcast(SizedVector(Scalar('int'), 'x', N('n')), 'y'), 'y', N('m'))))
    # tuples: equal element alignment
    I = Scalar('int')
    F = Scalar('float')
    vx = SizedVector(I, 'x', N('n'))
    vy = SizedVector(F, 'y', N('m'))
    vxy = SizedVector(vx, 'y', N('m'))
    out.append(('t2', Tuple('t', I, F)))
    out.append(('t3', Tuple('t', vx, F, vy)))
    out.append(('t3b', Tuple('t', vxy, vx, I)))
    out.append(('t4', Tuple('t', SizedVector(I, 'x', N('a')), SizedVector(I, 'y', N('b')), SizedVector(I, 'z', N('c')), SizedVector(I, 'w', N('d')))))
    out.append(('vt', SizedVector(Tuple('t', I, vx), 'z', N('l'))))
    out.append(('tt', Tuple('t', Tuple('s', I, vx), F, Tuple('u', vy, I))))
    D = Scalar('double')
    out.append(('tdesc', Tuple('t', SizedVector(D, 'x', N('n')), D)))
    return out


FILES = dict(shift='slice', slice='slice', span='slice', step='slice', reverse='slice', symspan='slice', fix='setters', rename='views', hoist='views',
             vector='layouts', bcast='bcast', merge='blocks')


def anchor(*views):
    return ', '.join(sorted({H + 'structs/%s.hpp' % FILES.get(v, 'blocks') for v in views}))


def stacks(views, depth, bs, dims=('x', 'y'), last=None):
    """all stacks of `depth` views over the bases; each view is applied to a dimension of the result so far"""
    out = []
    for bn, b in bs:
        cur = [(bn, b, ())]
        for k in range(depth):
            nxt = []
            for name, s, vs in cur:
                for v in views:
                    ds = [d for d, kk in s.dims() if kk is None]
                    if v in ('vector', 'bcast'):
                        ds = ds[:1]
                    for d in ds:
                        t = apply_view(v, s, d)
                        if t is not None:
                            nxt.append(('%s_%s%s' % (name, v, d), t, vs + (v,)))
            cur = nxt
        out += cur
    return out


SLICES = ['shift', 'slice', 'span', 'step', 'reverse', 'symspan', 'fix']
BLOCKS = ['blocks', 'blocks_same', 'blocks_short', 'blocks_major', 'dyn', 'dyn_major', 'static', 'merge']
OTHER = ['rename', 'hoist', 'vector', 'bcast']


def tuple_views():
    I, F = Scalar('int'), Scalar('float')
    vx = SizedVector(I, 'x', N('n'))
    vxy = SizedVector(vx, 'y', N('m'))
    vy = SizedVector(F, 'y', N('m'))
    T = Tuple('t', vx, I, vxy, vy, F)
    VT = SizedVector(Tuple('t', vx, I, vxy), 'z', N('l'))
    out = []
    for nm, b in (('T', T), ('VT', VT)):
        out += [(nm + '_shift', Shift(b, 't', LIT(1))), (nm + '_slice', Slice(b, 't', LIT(1), LIT(2))), (nm + '_span', Span(b, 't', LIT(1), LIT(3))),
                (nm + '_rev', Reverse(b, 't')), (nm + '_shiftrev', Reverse(Shift(b, 't', LIT(1)), 't')), (nm + '_revshift', Shift(Reverse(b, 't'), 't', LIT(1))),
                (nm + '_step', Step(b, 't', LIT(0), LIT(2))), (nm + '_step1', Step(b, 't', LIT(1), LIT(2))),
                (nm + '_fixt', Fix(b, 't', LIT(0))), (nm + '_spanrev', Span(Reverse(b, 't'), 't', LIT(0), LIT(2)))]
    # views on a dimension inside the tuple
    same = Tuple('t', SizedVector(I, 'x', N('n')), SizedVector(F, 'x', N('m')))
    out += [('Ts_shift', Shift(same, 'x', N('h0'))), ('Ts_rev', Reverse(same, 'x')), ('Ts_step', Step(same, 'x', N('b0'), N('t0'))),
            ('Ts_slice', Slice(same, 'x', N('b0'), N('k0')))]
    return out


W5 = list(zip('xyzwv', ('n', 'm', 'l', 'k', 'q')))


def vec5(t='int', dims=W5):
    s = Scalar(t)
    for d, n in dims:
        s = SizedVector(s, d, N(n))
    return s


def picks(ks, seed, many):
    """a fixed sample of the ordered selections of k of the five dimensions"""
    import random
    rng = random.Random(seed)
    out = []
    for k in ks:
        c = list(itertools.permutations('xyzwv', k))
        rng.shuffle(c)
        out += [c_ for c_ in c[:many]]
    return out


def wide_slices(many):
    b = vec5()
    out = []
    for c in picks((2, 3, 4, 5), 31, many):
        k = ''.join(c)
        s, t, u, f = b, b, b, b
        for i, d in enumerate(c):
            s = Shift(s, d, N('h%d' % i))
            t = Reverse(t, d)
            f = Fix(f, d, N('f%d' % i))
        ds = dimlist(c)
        out.append(('w5shift_' + k, _cpp(s, b.cpp + ' ^ noarr::shift<%s>(%s)' % (ds, ', '.join('h%d' % i for i in range(len(c)))))))
        out.append(('w5rev_' + k, _cpp(t, b.cpp + ' ^ noarr::reverse<%s>()' % ds)))
        out.append(('w5fix_' + k, _cpp(f, b.cpp + ' ^ noarr::fix<%s>(%s)' % (ds, ', '.join('f%d' % i for i in range(len(c)))))))
        m = Fix(f.sub, c[-1], LIT(2))
        out.append(('w5fixm_' + k, _cpp(m, b.cpp + ' ^ noarr::fix<%s>(%s)' % (ds, ', '.join(['f%d' % i for i in range(len(c) - 1)] + ['noarr::lit<2>'])))))
        # the same dimension sliced again and again
        d = c[0]
        r = Step(Shift(Slice(Reverse(Span(b, d, N('b0'), N('e0')), d), d, N('b1'), N('k0')), d, N('h0')), d, N('b2'), N('t0'))
        if len(c) == 2:
            out.append(('w5many_' + k, r))
            out.append(('w5manyo_' + k, Shift(r, c[1], N('h1'))))
    return out


def wide_names(many):
    b = vec5()
    out = []
    for c in picks((2, 3, 4, 5), 37, many):
        k = ''.join(c)
        ds = dimlist(c)
        h = b
        for d in reversed(c):
            h = Hoist(h, d)
        out.append(('w5hoist_' + k, _cpp(h, b.cpp + ' ^ noarr::hoist<%s>()' % ds)))
        cyc = [x for i in range(len(c)) for x in (c[i], c[(i + 1) % len(c)])]
        out.append(('w5rcyc_' + k, Rename(b, *cyc)))
        new = [x for i, d in enumerate(c) for x in (d, 'ABCDE'[i])]
        out.append(('w5rnew_' + k, Rename(b, *new)))
        mix = [x for i, d in enumerate(c) for x in (d, 'A' if i == 0 else c[i - 1])]
        out.append(('w5rmix_' + k, Rename(b, *mix)))
        out.append(('w5rhoist_' + k, Hoist(Rename(b, *mix), 'A')))
        o = Scalar('double')
        for d, _ in W5:
            o = Vector(o, d)
        n = dict(W5)
        t = o
        for d in c:
            t = SetLength(t, d, N(n[d]))
        for d, x in W5:
            if d not in c:
                t = SetLength(t, d, N(x))
        out.append(('w5len_' + k, _cpp(t, o.cpp + ' ^ noarr::set_length<%s>(%s)' % (ds, ', '.join(n[d] for d in c)) + ''.join(" ^ noarr::set_length<'%s'>(%s)" % (d, x) for d, x in W5 if d not in c))))
        bc = SizedVector(Scalar('int'), 'u', N('r'))
        ob = bc
        for d in c:
            bc = Bcast(bc, d)
        base = bc
        for d in c:
            bc = SetLength(bc, d, N(n[d]))
        out.append(('w5bcast_' + k, _cpp(bc, ob.cpp + ' ^ noarr::bcast<%s>() ^ noarr::set_length<%s>(%s)' % (ds, ds, ', '.join(n[d] for d in c)))))
        if len(c) > 2:
            out.append(('w5vecs_' + k, _cpp(vec5('short', [(d, n[d]) for d in c]), 'noarr::scalar<short>() ^ noarr::vectors<%s>(%s)' % (ds, ', '.join(n[d] for d in c)))))
            out.append(('w5join_' + k, Join(vec5('int', [(d, 'n') for d in c]), c[1], c[0], 'J')))
            out.append(('w5join2_' + k, Join(Join(vec5('int', [(d, 'n') for d in c]), c[1], c[0], 'J'), 'J', c[2], 'K')))
    for c in picks((5,), 41, many):
        out.append(('w5reorder_' + ''.join(c), Reorder(b, *c)))
    return out


def wide_orders(many, kinds=('shift', 'rev', 'fix', 'many', 'manyo', 'hoist', 'rcyc', 'rnew', 'rmix', 'rhoist', 'reorder')):
    """(name, structure, five-dimensional structure it is a view of)"""
    out = []
    for n, s in wide_slices(many) + wide_names(many):
        if n[2:].split('_')[0] in kinds:
            b = s
            while hasattr(b, 'sub') and b.cpp != vec5().cpp:
                b = b.sub
            out.append((n, s, b))
    return out


def wide_tuples():
    I, F, D = Scalar('int'), Scalar('float'), Scalar('double')
    vx, vy = SizedVector(I, 'x', N('n')), SizedVector(F, 'y', N('m'))
    vxy = SizedVector(vx, 'y', N('m'))
    g = [SizedVector(I, 'xyzwvu'[i], N('abcdeg'[i])) for i in range(6)]
    out = [('t5', Tuple('t', *g[:5])), ('t6', Tuple('t', *g)), ('t6r', Tuple('t', *g[::-1])),
           ('t6m', Tuple('t', vx, I, vxy, vy, F, vx)), ('t6v', SizedVector(Tuple('t', I, vx, F, vy, I, vxy), 'z', N('l'))),
           ('t3n', Tuple('t', Tuple('s', Tuple('r', vx, I, F), vy, I), F, Tuple('u', I, Tuple('w', F, vxy, I)))),
           ('tvt', Tuple('t', SizedVector(Tuple('s', I, vx, F), 'z', N('l')), I, SizedVector(Tuple('s', vy, I, F, vxy), 'w', N('k')))),
           ('t8', Tuple('t', *[SizedVector(D, 'x', N('n')) if i % 3 else D for i in range(8)]))]
    return out


def _v2():
    return [b for b in bases() if b[0] in ('v1', 'v2')]


FORMS = ['offset', 'state', 'rev', 'ptr', 'fixall', 'bag', 'with']


def mk_base(tier):
    obs = []
    for name, s in base_cases() + wide_tuples() + [('w5', vec5())]:
        for form in FORMS:
            obs += offset_obs('%s_%s' % (name, form), s, '%s (asked through: %s)' % (s.cpp, form), H + 'structs/layouts.hpp, base/structs_common.hpp', form, 12)
    # elements of a mixed tuple never overlap and stay inside
    mixes = [('char', 'int'), ('char', 'double', 'short'), ('int', 'char', 'char', 'int'), ('short', 'char', 'int', 'char', 'double'), ('double', 'char')]
    for k, m in enumerate(mixes):
        e = 'noarr::pack(%s) ^ noarr::tuple<\'t\'>()' % ', '.join('noarr::scalar<%s>()' % t for t in m)
        body = 'constexpr auto S_ = %s; constexpr u64 size = S_ | noarr::get_size();' % e
        prev = '0'
        for j, t in enumerate(m):
            body += " constexpr u64 o%d = S_ | noarr::offset<'t'>(noarr::lit<%d>); static_assert(o%d >= %s, \"tuple element %d overlaps its predecessor\");" % (j, j, j, prev, j)
            prev = '(o%d + sizeof(%s))' % (j, t)
        body += ' static_assert(%s <= size, "last tuple element sticks out of the tuple");' % prev
        obs.append(Wit('mix%d' % k, body, 'elements of %s are disjoint and inside' % e, H + 'structs/layouts.hpp: tuple_t'))
    # vectors of mixed tuples: consecutive elements do not overlap
    for k, m in enumerate(mixes):
        e = "noarr::pack(%s) ^ noarr::tuple<'t'>() ^ noarr::vector<'x'>(n)" % ', '.join('noarr::scalar<%s>()' % t for t in m)
        for j in range(len(m)):
            obs.append(Eq('mixv%d_%d' % (k, j), ['n', 'i'], "auto S_ = %s; return S_ | noarr::offset<'x','t'>(i, noarr::lit<%d>);" % (e, j),
                          "constexpr auto T_ = noarr::pack(%s) ^ noarr::tuple<'t'>(); return i*u64(T_ | noarr::get_size()) + u64(T_ | noarr::offset<'t'>(noarr::lit<%d>));" % (
                              ', '.join('noarr::scalar<%s>()' % t for t in m), j), ['i < n'], what='vector of ' + e, anchor=H + 'structs/layouts.hpp'))
    return [Group(PRE, obs)]


def mk_size(tier):
    obs = []
    for name, s in base_cases() + wide_tuples() + [('w5', vec5())]:
        obs += size_obs(name, s, s.cpp, H + 'structs/layouts.hpp') + length_obs(name, s, s.cpp, H + 'structs/layouts.hpp')
    # views of the index space leave the size alone
    for name, s, vs in stacks(SLICES + BLOCKS + OTHER, 1, bases()):
        obs += size_obs('sv_' + name, s, s.cpp, anchor(*vs))
    for name, s in tuple_views():
        obs += size_obs('sv_' + name, s, s.cpp, H + 'structs/slice.hpp')
    # mixed tuples: the documented size is the plain sum
    C, I = Scalar('char'), Scalar('int')
    obs += size_obs('tmix_ci', Tuple('t', C, I), 'tuple(char, int)', H + 'structs/layouts.hpp: tuple_t::size_accumulator')
    obs += size_obs('tmix_icc', Tuple('t', I, C, C), 'tuple(int, char, char)', H + 'structs/layouts.hpp: tuple_t::size_accumulator')
    return [Group(PRE, obs)]


def mk_slices(tier):
    obs = []
    for name, s, vs in stacks(SLICES, 1, bases()):
        a = anchor(*vs)
        obs += length_obs(name, s, s.cpp, a)
        for form in FORMS:
            obs += offset_obs(name + '_' + form, s, s.cpp, a, form)
    for name, s in tuple_views():
        obs += all_obs('tv_' + name, s, s.cpp, H + 'structs/slice.hpp')
    for name, s, vs in stacks(SLICES, 2, _v2()):
        obs += all_obs(name, s, s.cpp, anchor(*vs))
    # multi-dimension forms
    for name, s in wide_slices(3 if tier == 'quick' else 40):
        obs += all_obs(name, s, s.cpp, anchor('shift', 'fix'))
    v2 = bases()[1][1]
    v3 = bases()[3][1]
    obs += all_obs('shift2', _cpp(Shift(Shift(v2, 'x', N('h0')), 'y', N('h1')), v2.cpp + " ^ noarr::shift<'x', 'y'>(h0, h1)"), 'shift<x,y>', anchor('shift'))
    obs += all_obs('rev2', _cpp(Reverse(Reverse(v2, 'x'), 'y'), v2.cpp + " ^ noarr::reverse<'x', 'y'>()"), 'reverse<x,y>', anchor('reverse'))
    obs += all_obs('fix2', _cpp(Fix(Fix(v3, 'x', N('f0')), 'z', N('f1')), v3.cpp + " ^ noarr::fix<'x', 'z'>(f0, f1)"), 'fix<x,z>', anchor('fix'))
    obs += all_obs('symspan2', _cpp(SymSpan(SymSpan(v2, 'x', N('w0')), 'y', N('w1')), v2.cpp + " ^ noarr::symmetric_spans<'x', 'y'>(%s, w0, w1)" % v2.cpp), 'symmetric_spans<x,y>', anchor('symspan'))
    obs += all_obs('slice1', _cpp(Slice(v2, 'x', LIT(0), N('k0')), v2.cpp + " ^ noarr::slice<'x'>(k0)"), 'slice<x>(len)', anchor('slice'))
    obs += all_obs('span1', _cpp(Span(v2, 'x', LIT(0), N('e0')), v2.cpp + " ^ noarr::span<'x'>(e0)"), 'span<x>(end)', anchor('span'))
    # a step inside a slice etc. over an inner, middle and outer dimension of a cube
    if tier != 'quick':
        for name, s, vs in stacks(SLICES, 2, [bases()[3]]):
            obs += all_obs(name, s, s.cpp, anchor(*vs))
        for name, s, vs in stacks(SLICES, 3, [bases()[0]]):
            obs += all_obs(name, s, s.cpp, anchor(*vs))
    # all steps of one stride together cover every index exactly once: index i is element i/t of step(i%t, t)
    for bn, b in bases()[:2]:
        v = Step(b, 'x', N('r'), N('t'))
        rest = [d for d in b.dimnames() if d != 'x']
        ps = b.params + ['t', 'i'] + ['i' + d for d in rest]
        ds = dimlist(['x'] + rest)
        oth = ''.join(', i' + d for d in rest)
        obs.append(Eq('steps_cover_' + bn, ps, 'u64 r = i % t; auto S_ = ' + v.cpp + '; return S_ | noarr::offset<%s>(i / t%s);' % (ds, oth),
                      'return %s;' % b.off(dict([('x', 'i')] + [(d, 'i' + d) for d in rest])), b.pre + ['t >= 1', 'i < n'], what='the t steps partition the index range', anchor=anchor('step')))
    return [Group(PRE, obs)]


def _cpp(s, cpp):
    s.cpp = cpp
    return s


def mk_names(tier):
    """fix, rename, hoist, reorder, join, set_length, bcast"""
    obs = []
    v2, v3 = bases()[1][1], bases()[3][1]
    cs = []
    for name, s, vs in stacks(['fix', 'rename', 'hoist', 'bcast', 'vector'], 1, bases()) + stacks(['fix', 'rename', 'hoist', 'bcast', 'vector'], 2, bases()):
        cs.append((name, s))
    import itertools as it
    for p in it.permutations('xyz'):
        cs.append(('reorder_' + ''.join(p), Reorder(v3, *p)))
        cs.append(('renperm_' + ''.join(p), Rename(v3, 'x', p[0], 'y', p[1], 'z', p[2])))
    cs.append(('renswap', Rename(v2, 'x', 'y', 'y', 'x')))
    cs.append(('renself', Rename(v2, 'x', 'x')))
    cs.append(('renchain', Rename(Rename(v2, 'x', 'a'), 'a', 'y', 'y', 'x')))
    cs.append(('hoist2', _cpp(Hoist(Hoist(v3, 'y'), 'x'), v3.cpp + " ^ noarr::hoist<'x', 'y'>()")))
    sq = SizedVector(SizedVector(Scalar('int'), 'x', N('n')), 'y', N('n'))
    for c in 'zxy':
        cs.append(('join_' + c, Join(sq, 'x', 'y', c)))
    sq3 = SizedVector(SizedVector(SizedVector(Scalar('int'), 'x', N('n')), 'w', N('m')), 'y', N('n'))
    for c in 'zxy':
        cs.append(('join3_' + c, Join(sq3, 'x', 'y', c)))
    op = Vector(Vector(Scalar('int'), 'x'), 'y')
    cs.append(('join_late', SetLength(Join(op, 'x', 'y', 'z'), 'z', N('n'))))
    cs += wide_names(3 if tier == 'quick' else 60)
    # a dimension renamed away leaves its name free
    cs.append(('reuse', SizedVector(Rename(v2, 'x', 'a'), 'x', N('q'))))
    for name, s in cs:
        obs += all_obs(name, s, s.cpp, anchor('fix', 'rename', 'hoist'))
        obs += sig_obs('sig_' + name, s)
    return [Group(PRE, obs)]


def sig_obs(pid, s):
    """the signature lists the dimensions outermost first (queried with the public type-level helpers)"""
    if any(k is not None for _, k in s.dims()):
        return []
    ds = s.dimnames()
    ps = ', '.join('u64 ' + p for p in s.params)
    return [Wit(pid, 'inline void f(%s) { using T_ = decltype(%s); static_assert(sig_is<typename T_::signature, %s>, "dimension order"); }' % (
        ps, s.cpp, dimlist(ds) if ds else '0'), 'dimension order of ' + s.cpp, anchor('hoist'))]


def mk_blocks(tier):
    obs = []
    for name, s, vs in stacks(BLOCKS, 1, bases()):
        a = anchor(*vs)
        obs += length_obs(name, s, s.cpp, a) + size_obs(name, s, s.cpp, a)
        for form in FORMS:
            obs += offset_obs(name + '_' + form, s, s.cpp, a, form)
    for name, s, vs in stacks(BLOCKS, 2, _v2() if tier == 'quick' else bases()):
        obs += all_obs(name, s, s.cpp, anchor(*vs))
    v1, v2, v3 = bases()[0][1], bases()[1][1], bases()[3][1]
    # merge undoes into_blocks, and the other way round
    M = MergeBlocks(IntoBlocks(v1, 'x', 'A', 'B', N('m')), 'A', 'B', 'x')
    obs.append(Eq('merge_into', ['n', 'm', 'ix'], "auto S_ = %s; return S_ | noarr::offset<'x'>(ix);" % M.cpp, 'return 4*ix;', ['n % m == 0', 'ix < n', 'm >= 1'], {'m': [1, 2, 3, 4], 'n': [0, 1, 2, 3, 4, 6, 8, 12]},
                  what='merge_blocks after into_blocks is the identity', anchor=anchor('merge')))
    # explicit lengths on either side
    for nm, s in (('mb_xy', MergeBlocks(v2, 'x', 'y', 'z')), ('mb_yx', MergeBlocks(v2, 'y', 'x', 'z')), ('mb_same', MergeBlocks(v2, 'x', 'y', 'y')),
                  ('mb_same2', MergeBlocks(v2, 'y', 'x', 'y')), ('mb3', MergeBlocks(v3, 'x', 'z', 'q')), ('mb3b', MergeBlocks(v3, 'z', 'y', 'q')),
                  ('mb33', MergeBlocks(MergeBlocks(v3, 'z', 'y', 'q'), 'q', 'x', 'r'))):
        obs += all_obs(nm, s, s.cpp, anchor('merge'))
    # lengths of both block dimensions given, total length open
    o1 = Vector(Scalar('int'), 'x')
    o2 = SizedVector(Vector(Scalar('double'), 'x'), 'y', N('m'))
    for bn, b in (('o1', o1), ('o2', o2)):
        ib = IntoBlocks(b, 'x', 'A', 'B')
        obs += all_obs(bn + '_both', SetLength(SetLength(ib, 'A', N('g')), 'B', N('k')), 'into_blocks with both lengths', anchor('blocks'))
        obs += all_obs(bn + '_both2', SetLength(SetLength(ib, 'B', N('k')), 'A', N('g')), 'into_blocks with both lengths', anchor('blocks'))
        di = IntoBlocksDyn(b, 'x', 'A', 'B', 'C')
        obs += all_obs(bn + '_dboth', SetLength(SetLength(di, 'A', N('g')), 'B', N('k')), 'into_blocks_dynamic with both lengths', anchor('dyn'))
    # merge with one open dimension and the merged length given
    om = SizedVector(Vector(Scalar('int'), 'x'), 'y', N('m'))
    om2 = Vector(SizedVector(Scalar('int'), 'x', N('n')), 'y')
    for bn, b, p in (('om', om, 'm'), ('om2', om2, 'n')):
        for a, c in (('x', 'y'), ('y', 'x')):
            t = SetLength(MergeBlocks(b, a, c, 'z'), 'z', N('q'))
            t.pre += ['%s >= 1' % p, 'q %% %s == 0' % p]
            obs += all_obs('%s_%s%s' % (bn, a, c), t, t.cpp, anchor('merge'))
    # short forms
    sh = IntoBlocksDyn(v1, 'x', 'A', 'B', 'C', N('m'), short=True)
    obs += all_obs('dyn_short', sh, sh.cpp, H + 'extra/shortcuts.hpp')
    # strip_mine<Dim, Major, Minor>(n) = into_blocks + hoist of the major dimension
    for bn, b in bases()[:2] + [bases()[3]]:
        for d in b.dimnames():
            s = Hoist(IntoBlocks(b, d, 'A', 'B', N('k')), 'A')
            obs += all_obs('sm_%s_%s' % (bn, d), _cpp(s, b.cpp + " ^ noarr::strip_mine<'%s', 'A', 'B'>(k)" % d), 'strip_mine', H + 'extra/shortcuts.hpp')
            obs += sig_obs('smsig_%s_%s' % (bn, d), s)
            s = Hoist(IntoBlocksDyn(b, d, 'A', 'B', 'C', N('k')), 'A')
            obs += all_obs('smd_%s_%s' % (bn, d), _cpp(s, b.cpp + " ^ noarr::strip_mine_dynamic<'%s', 'A', 'B', 'C'>(k)" % d), 'strip_mine_dynamic', H + 'extra/shortcuts.hpp')
    return [Group(PRE, obs)]


def mk_stacks(tier):
    V = SLICES + BLOCKS + OTHER
    obs = []
    if tier == 'quick':
        cs = stacks(V, 2, _v2())
    else:
        cs = stacks(V, 2, bases())
        deep = stacks(V, 3, [bases()[0]])
        import random
        random.Random(int(__import__('os').environ.get('VERIF_SEED', '1'))).shuffle(deep)
        cs += deep[:4000]
    for name, s, vs in cs:
        obs += all_obs(name, s, s.cpp, anchor(*vs))
    return [Group(PRE, obs, batch=40)]


# ------------------------------------------------------------------ availability of lengths
def has_obs(pid, s, files):
    out, seen = [], set()
    for assign in itertools.islice(walk_dims(s), 4):
        for k in range(len(assign) + 1):
            outer = assign[:k]
            idx, cpp, ip = idx_exprs(outer)
            mine = [a for a, _ in assign]
            body = []
            for d in mine + ['Z'] + [x for x in 'xy' if x not in mine]:
                key = (tuple(outer), d)
                if key in seen:
                    continue
                seen.add(key)
                if skip_has(s, d, idx):
                    continue
                body.append("static_assert(decltype(S_)::template has_length<'%s', decltype(st)>() == %s, \"length availability of %s\");" % (
                    d, 'true' if s.length(d, idx) is not None else 'false', d))
            if not body:
                continue
            st = ' & '.join("noarr::idx<'%s'>(%s)" % (x, c) for (x, _), c in zip(outer, cpp)) or 'noarr::empty_state'
            ps = ', '.join('u64 ' + p for p in s.params + ip)
            out.append(Wit('%s_%d' % (pid, len(out)), 'inline void f(%s) { auto S_ = %s; auto st = %s; %s }' % (ps, s.cpp, st, ' '.join(body)),
                           what='which lengths %s offers given indices in %s' % (s.cpp, ','.join(x for x, _ in outer) or 'nothing'), anchor=files))
    return out


def skip_has(s, d, idx):
    """queries the library rejects outright instead of answering"""
    t = s
    while t is not None:
        if isinstance(t, IntoBlocksStatic) and d in (t.M, t.m) and t.B not in idx:
            return True
        if isinstance(t, MergeBlocks) and d in idx:
            return True
        t = getattr(t, 'sub', None)
    return False


def mk_lengths(tier):
    obs = []
    wit = []
    for name, s, vs in stacks(SLICES + BLOCKS + OTHER, 1, bases()):
        wit += has_obs('has_' + name, s, anchor(*vs))
    # lengths supplied by the state instead of set_length
    op1 = Vector(Scalar('int'), 'x')
    op2 = Vector(SizedVector(Scalar('double'), 'y', N('m')), 'x')
    op3 = SizedVector(Vector(Scalar('short'), 'x'), 'y', N('m'))
    bc = SizedVector(Bcast(Scalar('int'), 'x'), 'y', N('m'))
    for bn, b in (('op1', op1), ('op2', op2), ('op3', op3), ('bc', bc)):
        vs = [('id', b, ['x']), ('shift', Shift(b, 'x', N('h0')), ['x']), ('rev', Reverse(b, 'x'), ['x']), ('ren', Rename(b, 'x', 'A'), ['A']),
              ('hoist', Hoist(b, 'x'), ['x']), ('blk', IntoBlocks(b, 'x', 'A', 'B'), ['A', 'B']), ('dyn', IntoBlocksDyn(b, 'x', 'A', 'B', 'C'), ['A', 'B']),
              ('vec', SizedVector(b, 'q', N('l')), ['x']), ('revshift', Shift(Reverse(b, 'x'), 'x', N('h0')), ['x']),
              ('shiftrev', Reverse(Shift(b, 'x', N('h0')), 'x'), ['x']), ('blkren', Rename(IntoBlocks(b, 'x', 'A', 'B'), 'A', 'D'), ['D', 'B']),
              ('shiftblk', IntoBlocks(Shift(b, 'x', N('h0')), 'x', 'A', 'B'), ['A', 'B'])]
        for vn, s, opens in vs:
            if bn == 'bc' and vn in ('shift', 'revshift', 'shiftrev', 'shiftblk') and False:
                continue
            obs += open_obs('%s_%s' % (bn, vn), s, opens)
    for x in ('x', 'y'):
        pass
    return [Group(PRE, obs), Group(PRE, wit)]


def open_obs(pid, s, opens):
    """offset, size, lengths with the open lengths in the state; and the same through set_length"""
    out = []
    lens = {d: 'L' + d for d in opens}
    lp = ['L' + d for d in opens]
    assign = [(d, None) for d in s.dimnames()]
    idx, cpp, ip = idx_exprs(assign)
    lst = ' & '.join("noarr::empty_state.template with<noarr::length_in<'%s'>>(u64(L%s))" % (d, d) for d in opens)
    ist = ' & '.join("noarr::idx<'%s'>(i%s)" % (d, d) for d, _ in assign)
    pre = list(s.pre)
    cur = {}
    for d, _ in assign:
        L = s.length(d, cur, lens)
        if L is not None:
            pre.append('i%s < %s' % (d, py(L)))
        cur[d] = 'i' + d
    w = 'with the length of %s given by the state' % ','.join(opens)
    P_ = s.params + lp
    spec = s.off(idx, lens)
    out.append(Eq(pid + '_soff', P_ + ip, 'auto S_ = %s; return S_ | noarr::offset(%s & %s);' % (s.cpp, lst, ist), 'return %s;' % spec, pre, what='offset in %s %s' % (s.cpp, w)))
    out.append(Eq(pid + '_soff2', P_ + ip, 'auto S_ = %s; return S_ | noarr::offset(%s & %s);' % (s.cpp, ist, lst), 'return %s;' % spec, pre, what='offset in %s %s' % (s.cpp, w)))
    sz = s.size({}, lens)
    out.append(Eq(pid + '_ssize', P_, 'auto S_ = %s; return u64(S_ | noarr::get_size(%s));' % (s.cpp, lst), 'return %s;' % sz, s.pre, what='size of %s %s' % (s.cpp, w)))
    t = s
    for d in opens:
        t = SetLength(t, d, Num('L' + d))
    out.append(Eq(pid + '_toff', P_ + ip, 'auto S_ = %s; return S_ | noarr::offset(%s);' % (t.cpp, ist), 'return %s;' % spec, pre, what='set_length agrees with the state in ' + s.cpp))
    out.append(Eq(pid + '_tsize', P_, 'auto S_ = %s; return u64(S_ | noarr::get_size());' % t.cpp, 'return %s;' % sz, s.pre, what='set_length agrees with the state in ' + s.cpp))
    cur = {}
    for d, _ in assign:
        L = s.length(d, cur, lens)
        if L is not None:
            st = ''.join(" & noarr::idx<'%s'>(i%s)" % (x, x) for x in cur)
            out.append(Eq('%s_slen%s' % (pid, d), P_ + ['i' + x for x in cur], "auto S_ = %s; return u64(S_ | noarr::get_length<'%s'>(%s%s));" % (s.cpp, d, lst, st), 'return %s;' % L,
                          [x for x in pre if not any(('i' + y) in x for y in s.dimnames() if y not in cur)], what='length of %s in %s %s' % (d, s.cpp, w)))
            out.append(Eq('%s_tlen%s' % (pid, d), P_ + ['i' + x for x in cur], "auto S_ = %s; return u64(S_ | noarr::get_length<'%s'>(noarr::empty_state%s));" % (t.cpp, d, st), 'return %s;' % L,
                          [x for x in pre if not any(('i' + y) in x for y in s.dimnames() if y not in cur)], what='length of %s in %s' % (d, t.cpp)))
        cur[d] = 'i' + d
    for o in out:
        o.anchor = H + 'structs/setters.hpp, structs/layouts.hpp'
    return out
