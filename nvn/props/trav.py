"""Traversers: for_each / for_sections / for_dims / order / unions / iterators visit exactly the indices they should, in order."""
import itertools
from ..core import Eq, Wit, Group
from ..model import *
from ..gen import *
from .layout import PRE, H, anchor, stacks, bases, SLICES, BLOCKS, tuple_views, _cpp, wide_orders, wide_tuples, vec5

TPRE = PRE + '''#include <noarr/traversers.hpp>
#include <noarr/structures/structs/zcurve.hpp>
template<class S, auto... Ds> constexpr bool only_dims = true;
template<class T, auto... Ds> constexpr bool one_of_dims = (... || std::is_same_v<T, noarr::index_in<Ds>>);
template<class... T, class... V, auto... Ds> constexpr bool only_dims<noarr::state<noarr::state_item<T, V>...>, Ds...> = (... && one_of_dims<T, Ds...>);
template<class S, auto... Ds> constexpr bool has_dims = (... && noarr::state_contains<S, noarr::index_in<Ds>>);
'''
TR = H + 'extra/traverser.hpp'


def to_base(s, b, idx):
    """the index assignment of the base structure that corresponds to idx of s"""
    lens = {}
    while s is not b:
        idx, lens = s.st(idx, lens)
        s = s.sub
    return idx


def order_of(s, b):
    return s.cpp[len(b.cpp) + 3:]


def sink_call(args):
    n = len(args)
    return '%s(%s);' % ('sink' if n == 1 else 'sink%d' % n if n else 'mark', ', '.join(args) if n else '0')


def leaf_code(b, dims, st='s'):
    """sink of the indices of the dims held by the state, and nothing else is in it"""
    ds = dimlist(dims)
    chk = 'static_assert(only_dims<std::remove_cvref_t<decltype(%s)>%s> && has_dims<std::remove_cvref_t<decltype(%s)>%s>, "state given by the traverser");' % (
        st, ', ' + ds if ds else '', st, ', ' + ds if ds else '')
    return chk + ' ' + sink_call(["u64(noarr::get_index<'%s'>(%s))" % (d, st) for d in dims])


def loops(s, b, body=None, dims=None, idx=None, pick=None):
    """nested loops over the dimensions of s, outermost first; at the bottom: sink of the base indices"""
    idx = dict(idx or {})
    ds = s.dims() if dims is None else dims

    def go(ds, idx):
        if not ds:
            if body:
                return body(idx)
            bi = to_base(s, b, idx)
            names = [d for d in base_dims(b, bi)]
            if pick:
                names = [d for d in names if d in pick]
            return sink_call([bi[d] for d in names])
        d, k = ds[0]
        if k is None:
            v = 'j%s_%d' % (d, len(idx))
            return 'for (u64 %s = 0, e%s = %s; %s < e%s; %s++) { %s }' % (v, v, s.length(d, idx), v, v, v, go(ds[1:], dict(idx, **{d: v})))
        if isinstance(k, int):
            return ' '.join('{ %s }' % go(ds[1:], dict(idx, **{d: 'u64(%d)' % j})) for j in range(k))
        return ' '.join('{ %s }' % go(list(sub.dims()) + list(ds[1:]), dict(idx, **{d: 'u64(%d)' % j})) for j, sub in enumerate(k))
    return go(list(ds), idx)


def base_dims(b, bi):
    """names of the base dimensions along the path selected by bi, outermost first"""
    out = []

    def go(ds):
        for d, k in ds:
            out.append(d)
            if isinstance(k, tuple):
                go(k[eval(py(bi[d]))].dims())
    go(b.dims())
    return out


FORMS = {
    'fe': lambda b, o, leaf: 'noarr::traverser(%s)%s.for_each([=](auto s) { %s });' % (b, o, leaf),
    'pipe': lambda b, o, leaf: 'noarr::traverser(%s)%s | [=](auto s) { %s };' % (b, o, leaf),
    'pipefe': lambda b, o, leaf: 'noarr::traverser(%s)%s | noarr::for_each([=](auto s) { %s });' % (b, o, leaf),
    'sec': lambda b, o, leaf: 'noarr::traverser(%s)%s.for_sections([=](auto t) { auto s = t.state(); %s });' % (b, o, leaf),
    'secpipe': lambda b, o, leaf: 'noarr::traverser(%s)%s | noarr::for_sections([=](auto t) { auto s = t.state(); %s });' % (b, o, leaf),
}


def trav_ob(pid, s, b, form='fe', what=None, static=False):
    o = order_of(s, b)
    leafdims = None
    # tuples: the set of base dimensions differs per branch, so the leaf picks them with if constexpr
    alld = sorted({d for a in walk_dims(b) for d, _ in a})
    paths = {tuple(d for d, _ in a) for a in walk_dims(b)}
    if len(paths) == 1:
        leaf = leaf_code(b, list(paths.pop()))
    else:
        leaf = 'using S0 = std::remove_cvref_t<decltype(s)>; '
        for p in sorted(paths, key=len, reverse=True):
            leaf += 'if constexpr (has_dims<S0, %s> && only_dims<S0, %s>) { %s } else ' % (dimlist(p), dimlist(p), leaf_code(b, p))
        leaf += 'static_assert(sizeof(s) == 0, "state given by the traverser");'
    impl = 'auto B_ = %s; ' % b.cpp + FORMS[form]('B_', ('.order(%s)' % o) if o else '', leaf)
    return Eq(pid, s.params, impl, loops(s, b), s.pre, ret='void', what=what or 'traversal of %s in order %s (%s)' % (b.cpp, o, form), anchor=TR)


OVIEWS = SLICES + BLOCKS + ['rename', 'hoist', 'bcast']



def natural(s):
    """every length is known once the dimensions outside are fixed"""
    for a in walk_dims(s):
        idx = {}
        for d, k in a:
            if s.length(d, idx) is None:
                return False
            idx[d] = 'q' if k is None else 'u64(%d)' % k
    return True


def mk_foreach(tier):
    obs = []
    I, F = Scalar('int'), Scalar('float')
    v4 = SizedVector(SizedVector(SizedVector(SizedVector(I, 'x', N('n')), 'y', N('m')), 'z', N('l')), 'w', N('k'))
    bs = bases()
    for name, b in bs + [('s0', I), ('v4', v4), ('bc', Bcast(SizedVector(I, 'x', N('n')), 'y', N('m')))]:
        for f in FORMS:
            obs.append(trav_ob('%s_%s' % (name, f), b, b, f))
    for name, s, vs in stacks(OVIEWS, 1, bs):
        b = dict(bs)[name.split('_')[0]]
        for f in (FORMS if b is not bs[3][1] else ['fe']):
            obs.append(trav_ob('%s_%s' % (name, f), s, b, f))
    # two views in one order
    b2 = bs[:2] if tier == 'quick' else bs
    st = stacks(OVIEWS, 2, bs[:1]) + (stacks(['span', 'step', 'reverse', 'blocks', 'dyn', 'hoist', 'merge', 'fix'], 2, bs[1:2]) if tier == 'quick' else stacks(OVIEWS, 2, bs[1:]))
    for name, s, vs in st:
        b = dict(b2)[name.split('_')[0]]
        if not natural(s) or vs == ('static', 'static'):
            continue
        obs.append(trav_ob('o2_' + name, s, b, 'fe'))
    # five dimensions at once
    for name, s, b in wide_orders(1 if tier == 'quick' else 12):
        if natural(s):
            obs.append(trav_ob(name, s, b))
    # tuples: the alternatives are visited one after another
    vx, vy = SizedVector(I, 'x', N('n')), SizedVector(F, 'y', N('m'))
    vxy = SizedVector(vx, 'y', N('m'))
    ts = [('t2', Tuple('t', I, F)), ('t3', Tuple('t', vx, F, vy)), ('t4', Tuple('t', vxy, vx, I, vy)), ('vt', SizedVector(Tuple('t', I, vx), 'z', N('l'))),
          ('tt', Tuple('t', Tuple('s', I, vx), F, Tuple('s', vy, I)))]
    for name, b in wide_tuples():
        if all(len(a) < 7 for a in walk_dims(b)):
            obs.append(trav_ob('w_' + name, b, b))
    for name, b in ts:
        for f in FORMS:
            obs.append(trav_ob('%s_%s' % (name, f), b, b, f))
    for name, b in ts[1:3]:
        for vn, s in (('rev', Reverse(b, 't')), ('shift', Shift(b, 't', LIT(1))), ('slice', Slice(b, 't', LIT(1), LIT(2))), ('span', Span(b, 't', LIT(0), LIT(2))),
                      ('step', Step(b, 't', LIT(0), LIT(2))), ('step1', Step(b, 't', LIT(1), LIT(2))), ('fix', Fix(b, 't', LIT(0)))):
            if vn == 'fix':
                continue
            obs.append(trav_ob('%s_%s' % (name, vn), s, b))
    # several orders in a row: .order(A).order(B) is .order(A ^ B)
    v2, v3 = bs[1][1], bs[3][1]
    for k, (b, vs) in enumerate([(v2, ['slicex', 'reversey']), (v2, ['blocksx', 'hoistx']), (v3, ['stepy', 'spanz', 'hoistx']), (v2, ['shiftx', 'dyny']), (v2, ['renamex', 'fixy']),
                                 (v2, ['hoistx', 'hoisty']), (v3, ['reversex', 'mergey']), (v2, ['stepx', 'stepx', 'stepx'])]):
        s, parts = b, []
        for v in vs:
            t = apply_view(v[:-1], s, v[-1])
            if t is None:
                s = None
                break
            parts.append(order_of(t, s))
            s = t
        if s is None:
            continue
        for f in ('fe', 'pipe'):
            for nm, o in (('dot', ''.join('.order(%s)' % p for p in parts)), ('hat', ''.join(' ^ %s' % p for p in parts)), ('one', '.order(%s)' % ' ^ '.join('(%s)' % p for p in parts))):
                e = trav_ob('chain%d_%s_%s' % (k, nm, f), s, b, f)
                o1 = '.order(%s)' % order_of(s, b)
                assert o1 in e.impl
                if nm == 'hat':
                    e.impl = e.impl.replace('noarr::traverser(B_)' + o1, '(noarr::traverser(B_)%s)' % o)
                else:
                    e.impl = e.impl.replace(o1, o)
                e.what = 'chained orders (%s) on %s' % (nm, b.cpp)
                obs.append(e)
    # a bag is traversed like its structure
    for name, b in bs + ts[1:2]:
        e = trav_ob('bag_' + name, b, b)
        e.impl = e.impl.replace('noarr::traverser(B_)', 'noarr::traverser(noarr::make_bag(B_, (char *)u64(4096)))')
        obs.append(e)
    # the curve
    for S, G in ((0, 1), (1, 1), (1, 2), (2, 2), (3, 3)):
        from .zcurve import steps
        body = steps('yx', S, G, ['m', 'n'])
        obs.append(Eq('zc_%d_%d' % (S, G), ['n', 'm'], "auto B_ = %s; noarr::traverser(B_).order(noarr::merge_zcurve<'y', 'x', 'z'>::maxlen_alignment<%d, %d>()).for_each([=](auto s) { %s });" % (
            v2.cpp, 1 << G, 1 << S, leaf_code(v2, ['y', 'x'])), 'for (u64 iz = 0; iz < m*n; iz++) { %s sink2(ry, rx); }' % body,
            ['n <= %d' % (1 << G), 'm <= %d' % (1 << G), 'n %% %d == 0' % (1 << S), 'm %% %d == 0' % (1 << S)], {'n': list(range(1, 9)), 'm': list(range(1, 9))}, ret='void',
            what='traversal along the Z-order curve', anchor=TR + ', structs/zcurve.hpp'))
    # joined dimensions: the diagonal
    sq = SizedVector(SizedVector(SizedVector(I, 'x', N('n')), 'w', N('m')), 'y', N('n'))
    for c in 'zxy':
        obs.append(trav_ob('join_' + c, Join(sq, 'x', 'y', c), sq))
    # bag elements: every element is touched exactly once, at its address
    for name, b in bs:
        t = b.scalar()
        sz = Scalar.SZ[t]
        body = lambda idx, b=b, sz=sz: 'sink(u64(4096) + %s);' % b.off(idx)
        obs.append(Eq('addr_' + name, b.params, 'auto g = noarr::make_bag(%s, (char *)u64(4096)); noarr::traverser(g).for_each([=](auto s) { sink((u64)&g[s]); });' % b.cpp, loops(b, b, body), b.pre, ret='void',
                      what='addresses visited through a bag of ' + b.cpp, anchor=TR + ', interop/bag.hpp'))
    return [Group(TPRE, obs, batch=16)]


# ------------------------------------------------------------------ for_dims, for_sections<...>, for_each<...>, state(), unions
def dims_ob(pid, s, b, ds, how, inner, form='for_dims'):
    """traverse ds (in the given order for for_dims, in signature order otherwise), then the rest inside"""
    sdims = s.dimnames()
    outer = list(ds) if form == 'for_dims' else [d for d in sdims if d in ds]
    rest = [d for d in sdims if d not in ds]
    ok, idx = True, {}
    for d in outer + rest:
        if s.length(d, idx) is None:
            return None
        idx[d] = 'q'
    o = order_of(s, b)
    bd = b.dimnames()
    one_to_one = all(isinstance(x, (Rename, Hoist, Reorder, Slice, Span, Shift, Step, Reverse)) for x in chain(s, b))
    leaf = leaf_code(b, bd)
    T = 'noarr::traverser(B_)%s' % (('.order(%s)' % o) if o else '')
    dd = dimlist(ds)
    outn = outer
    if inner == 'each':
        body = 't.for_each([=](auto s) { %s }); mark(7);' % leaf
        rbody = lambda idx: loops(s, b, None, [(d, None) for d in rest], idx) + ' mark(7);'
    elif inner == 'state':
        if not one_to_one:
            return None
        m = to_base(s, b, {d: d for d in outer}) if False else None
        have = [d for d in bd if any(base_dim(s, b, x) == d for x in outer)]
        body = 'auto s = t.state(); ' + leaf_code(b, have)
        rbody = lambda idx: sink_call([to_base(s, b, idx)[d] for d in have])
    elif inner == 'count':
        body = 'mark(3);'
        rbody = lambda idx: 'mark(3);'
    elif inner == 'asstate':
        # a traverser with everything fixed can be used where a state is expected
        if rest:
            return None
        body = 'auto g = noarr::make_bag(B_, (char *)u64(4096)); sink((u64)&g[t]); sink((u64)&g[t.state()]);'
        rbody = lambda idx: 'sink(4096+%s); sink(4096+%s);' % ((b.off(to_base(s, b, idx)),) * 2)
    else:
        # nested: first remaining dimension by for_dims, the others by for_each
        if not rest:
            return None
        body = "t.template for_dims<'%s'>([=](auto u) { u.for_each([=](auto s) { %s }); mark(9); });" % (rest[-1], leaf)
        rr = [rest[-1]] + rest[:-1]
        i2 = {d: 'q' for d in outer}
        for d in rr:
            if s.length(d, i2) is None:
                return None
            i2[d] = 'q'

        def rbody(idx):
            return loops(s, b, lambda i3: loops(s, b, None, [(d, None) for d in rr[1:]], i3) + ' mark(9);', [(rr[0], None)], idx)
    call = {'dot': '%s.template %s<%s>([=](auto t) { %s });', 'pipe': '%s | noarr::%s<%s>([=](auto t) { %s });'}[how] % (T, form, dd, body)
    impl = 'auto B_ = %s; %s' % (b.cpp, call)
    spec = loops(s, b, rbody, [(d, None) for d in outer])
    return Eq(pid, s.params, impl, spec, s.pre, ret='void', what='%s<%s> of %s ordered by %s, inside: %s' % (form, dd, b.cpp, o or 'nothing', inner), anchor=TR + ', extra/sig_utils.hpp')


def chain(s, b):
    while s is not b:
        yield s
        s = s.sub


def base_dim(s, b, d):
    """which base dimension the dimension d of s stands for (views that map dimensions one to one)"""
    r = to_base(s, b, {x: 'v' + x for x in s.dimnames()})
    for k, v in r.items():
        if 'v' + d in v.replace('(', ' ').replace(')', ' ').replace('*', ' ').replace('+', ' ').replace('-', ' ').split():
            return k
    return None


def mk_dims(tier):
    obs = []
    bs = bases()
    v2, v3 = bs[1][1], bs[3][1]
    I = Scalar('int')

    def emit(pid, *a, **k):
        e = dims_ob(pid, *a, **k)
        if e is not None:
            obs.append(e)
    for nm, b in (('v1', bs[0][1]), ('v2', v2), ('v3', v3)):
        ds = b.dimnames()
        for r in range(0, len(ds) + 1):
            for p in itertools.permutations(ds, r):
                for inner in ('each', 'state', 'nested', 'asstate', 'count'):
                    emit('fd_%s_%s_%s' % (nm, ''.join(p), inner), b, b, p, 'dot', inner)
                emit('fdp_%s_%s' % (nm, ''.join(p)), b, b, p, 'pipe', 'each')
        for r in range(1, len(ds) + 1):
            for p in itertools.permutations(ds, r):
                for inner in ('each', 'state', 'nested'):
                    emit('fs_%s_%s_%s' % (nm, ''.join(p), inner), b, b, p, 'dot', inner, form='for_sections')
                emit('fsp_%s_%s' % (nm, ''.join(p)), b, b, p, 'pipe', 'each', form='for_sections')
    # under an order
    views = ['slice', 'span', 'shift', 'step', 'reverse', 'blocks', 'blocks_same', 'dyn', 'rename', 'hoist', 'fix', 'merge']
    b2 = [('v2', v2)]
    for name, s, vs in stacks(views, 1, b2):
        ds = s.dimnames()
        for r in range(0, len(ds) + 1):
            for p in itertools.permutations(ds, r):
                emit('ofd_%s_%s' % (name, ''.join(p)), s, v2, p, 'dot', 'each')
                if r == 1:
                    emit('ofs_%s_%s' % (name, ''.join(p)), s, v2, p, 'dot', 'state', form='for_sections')
    # for_each over some of the dimensions: the state has just those
    for nm, b in (('v2', v2), ('v3', v3)):
        ds = b.dimnames()
        for r in range(1, len(ds) + 1):
            for p in itertools.permutations(ds, r):
                out = [d for d in ds if d in p]
                for how in ('dot', 'pipe'):
                    call = 'T_.template for_each<%s>(' if how == 'dot' else 'T_ | noarr::for_each<%s>('
                    obs.append(Eq('fe_%s_%s_%s' % (nm, ''.join(p), how), b.params, 'auto B_ = %s; auto T_ = noarr::traverser(B_); %s[=](auto s) { %s });' % (b.cpp, call % dimlist(p), leaf_code(b, out)),
                                  loops(b, b, lambda idx: sink_call([idx[d] for d in out]), [(d, None) for d in out]), b.pre, ret='void', what='for_each<%s> of %s' % (dimlist(p), b.cpp), anchor=TR))
    # tuple dimensions
    F = Scalar('float')
    vx, vy = SizedVector(I, 'x', N('n')), SizedVector(F, 'y', N('m'))
    T = Tuple('t', vx, F, vy)
    VT = SizedVector(Tuple('t', I, vx), 'z', N('l'))
    for nm, b, ds in (('T', T, 't'), ('VT', VT, 'zt')):
        for form in ('for_dims', 'for_sections'):
            e = trav_ob('t_%s_%s_%s' % (nm, ds, form), b, b)
            leaf = e.impl[e.impl.index('[=](auto s) {'):-2]
            e.impl = 'auto B_ = %s; noarr::traverser(B_).template %s<%s>([=](auto t) { mark(1); t.for_each(%s); });' % (b.cpp, form, dimlist(ds), leaf)
            kinds = dict(b.dims())
            if ds == 't':
                e.spec = ' '.join('mark(1); ' + loops(b, b, None, list(k.dims()), {'t': 'u64(%d)' % j}) for j, k in enumerate(b.subs))
            elif ds == 'z':
                e.spec = 'for (u64 jz = 0; jz < l; jz++) { mark(1); %s }' % loops(b, b, None, b.dims()[1:], {'z': 'jz'})
            else:
                e.spec = 'for (u64 jz = 0; jz < l; jz++) { %s }' % ' '.join('mark(1); ' + loops(b, b, None, list(k.dims()), {'z': 'jz', 't': 'u64(%d)' % j}) for j, k in enumerate(kinds['t']))
            e.what = '%s<%s> of %s' % (form, ds, b.cpp)
            obs.append(e)
    # a fresh traverser holds no index; a fully fixed one runs exactly once
    for nm, b in (('v1', bs[0][1]), ('v3', v3)):
        obs.append(Wit('fresh_' + nm, 'inline void f(%s) { auto T_ = noarr::traverser(%s); static_assert(std::is_same_v<decltype(T_.state()), noarr::state<>>, "fresh traverser state"); }' % (
            ', '.join('u64 ' + p for p in b.params), b.cpp), 'state() of a fresh traverser', TR + ': state'))
    obs += unions(tier)
    return [Group(TPRE, obs, batch=16)]


def unions(tier):
    obs = []
    I, F = Scalar('int'), Scalar('float')
    A = SizedVector(SizedVector(I, 'x', N('n')), 'y', N('m'))            # y x
    B = SizedVector(SizedVector(F, 'z', N('l')), 'x', N('n'))            # x z
    C = SizedVector(SizedVector(F, 'y', N('m')), 'z', N('l'))            # z y
    D = SizedVector(I, 'w', N('k'))
    E = SizedVector(SizedVector(I, 'y', N('m')), 'x', N('n'))            # x y
    L = {'x': 'n', 'y': 'm', 'z': 'l', 'w': 'k'}
    S = {'A': A, 'B': B, 'C': C, 'D': D, 'E': E}
    sel = ['AB', 'BA', 'AE', 'EA', 'ABC', 'BCA', 'CAB', 'AD', 'DA', 'ABD', 'AC', 'CB', 'EBD', 'AA', 'ABCD', 'AI', 'IA']
    S['I'] = I
    for u in sel:
        # sig_union: dimensions of the later structures that are new go outside, in order
        order = S[u[0]].dimnames()
        for c in u[1:]:
            new = [d for d in S[c].dimnames() if d not in order]
            order = new + order
        ps = sorted({p for c in u for p in S[c].params})
        decl = ' '.join('auto %s_ = %s;' % (c, S[c].cpp) for c in sorted(set(u)))
        args = ', '.join(c + '_' for c in u)
        spec = sink_call(['j' + d for d in order])
        for d in reversed(order):
            spec = 'for (u64 j%s = 0; j%s < %s; j%s++) { %s }' % (d, d, L[d], d, spec)
        sd = sorted(order)
        leaf = leaf_code(None, order)
        obs.append(Eq('un_' + u, ps, '%s noarr::traverser(%s).for_each([=](auto s) { %s });' % (decl, args, leaf), spec, [], ret='void', what='traversal of the union ' + u, anchor=TR + ': union_t, sig_union'))
        obs.append(Eq('unb_' + u, ps, '%s noarr::traverser(%s).for_each([=](auto s) { %s });' % (decl, ', '.join('noarr::make_bag(%s_, (char *)4096)' % c for c in u), leaf), spec, [], ret='void', what='traversal of the union of bags ' + u, anchor=TR + ', interop/bag.hpp'))
        if len(order) > 1:
            inner = order[-1]
            o2 = [inner] + order[:-1]
            spec = sink_call(['j' + d for d in order])
            for d in reversed(o2):
                spec = 'for (u64 j%s = 0; j%s < %s; j%s++) { %s }' % (d, d, L[d], d, spec)
            obs.append(Eq('uno_' + u, ps, "%s noarr::traverser(%s).order(noarr::hoist<'%s'>()).for_each([=](auto s) { %s });" % (decl, args, inner, leaf), spec, [], ret='void', what='ordered traversal of the union ' + u, anchor=TR))
            obs.append(Eq('unb2_' + u, ps, "%s noarr::traverser(%s).order(noarr::slice<'%s'>(u64(1), u64(2))).for_each([=](auto s) { %s });" % (decl, args, inner, leaf),
                          _nest(order, lambda d: 'u64(2)' if d == inner else L[d], ['j%s%s' % (d, '+1' if d == inner else '') for d in order]), [], ret='void', what='sliced traversal of the union ' + u, anchor=TR))
            obs.append(Eq('unf_' + u, ps, "%s noarr::traverser(%s).template for_dims<'%s'>([=](auto t) { t.for_each([=](auto s) { %s }); });" % (decl, args, inner, leaf), spec, [], ret='void', what='for_dims of the union ' + u, anchor=TR))
    # the length of a shared dimension comes from the first structure that has it
    for nm, fst, snd, L0 in (('a', 'n', 'q', 'n'), ('b', 'q', 'n', 'q')):
        obs.append(Eq('unlen_' + nm, ['n', 'q'], "noarr::traverser(noarr::scalar<int>() ^ noarr::vector<'x'>(%s), noarr::scalar<float>() ^ noarr::vector<'x'>(%s)).for_each([=](auto s) { %s });" % (fst, snd, leaf_code(None, ['x'])),
                      'for (u64 jx = 0; jx < %s; jx++) sink(jx);' % L0, [], ret='void', what='length of a shared dimension', anchor=TR + ': union_t::length'))
    # several structures, each with its own lengths: the first one that has the dimension decides
    pool = ['x', 'y', 'z', 'w', 'v']
    shapes = ['x|y|z', 'x|y|zx', 'x|y|z|w', 'x|y|z|zw', 'x|xy|yz|zw', 'xy|zw|yz|wx', 'x|y|z|w|v', 'xy|z|zw|w|v', 'x|x|yx|zy|zw', 'w|v|wz|zy|yx', 'z|zy|yx|xz|x']
    for q, sh in enumerate(shapes):
        ps, first, order, subs = [], {}, [], []
        for i, ds in enumerate(sh.split('|')):
            cur = Scalar('int')
            for d in reversed(ds):
                n = '%s%d' % (d, i)
                ps.append(n)
                cur = SizedVector(cur, d, N(n))
                first.setdefault(d, n)
            subs.append(cur)
            order = [d for d in ds if d not in order] + order
        decl = ' '.join('auto s%d_ = %s;' % (i, c.cpp) for i, c in enumerate(subs))
        args = ', '.join('s%d_' % i for i in range(len(subs)))
        leaf = leaf_code(None, order)
        spec = _nest(order, lambda d: first[d], ['j' + d for d in order])
        obs.append(Eq('unm_%d' % q, ps, '%s noarr::traverser(%s).for_each([=](auto s) { %s });' % (decl, args, leaf), spec, [], ret='void', what='traversal of the union of structures with dimensions ' + sh, anchor=TR + ': union_t, sig_union'))
        obs.append(Eq('unml_%d' % q, ps, '%s auto u_ = noarr::make_union(%s); %s' % (decl, args, ' '.join("sink(u64(u_.template length<'%s'>(noarr::empty_state)));" % d for d in order)),
                      ' '.join('sink(%s);' % first[d] for d in order), [], ret='void', what='lengths of the union of structures with dimensions ' + sh, anchor=TR + ': union_t::length'))
        obs.append(Eq('unmb_%d' % q, ps, '%s noarr::traverser(%s).order(noarr::reorder<%s>()).for_each([=](auto s) { %s });' % (decl, ', '.join('noarr::make_bag(s%d_, (void *)4096)' % i for i in range(len(subs))), dimlist(order[::-1]), leaf),
                      _nest(order[::-1], lambda d: first[d], ['j' + d for d in order]), [], ret='void', what='reordered traversal of the union of bags with dimensions ' + sh, anchor=TR + ': union_t, sig_union'))
    # make_union directly
    obs.append(Eq('mkunion', ['n', 'm', 'l'], 'auto A_ = %s; auto B_ = %s; noarr::traverser(noarr::make_union(A_, B_)).for_each([=](auto s) { %s });' % (A.cpp, B.cpp, leaf_code(None, ['z', 'y', 'x'])),
                  _nest('zyx', lambda d: L[d], ['jz', 'jy', 'jx']), [], ret='void', what='traverser of make_union', anchor=TR))
    return obs


def _nest(order, length, args):
    spec = sink_call(args)
    for d in reversed(list(order)):
        spec = 'for (u64 j%s = 0; j%s < %s; j%s++) { %s }' % (d, d, length(d), d, spec)
    return spec
