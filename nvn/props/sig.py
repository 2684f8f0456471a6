"""Signatures and the traits derived from them describe the structure they belong to."""
import random
import re
from ..core import Wit, Neg, Group, bindings
from ..model import *
from ..gen import *
from .layout import PRE, H, base_cases, tuple_views, stacks, SLICES, BLOCKS, OTHER, wide_orders, wide_names, wide_tuples
from .static import recipes, BIG, hash_

A = H + 'base/signature.hpp, extra/sig_utils.hpp, extra/struct_traits.hpp; `signature` of every structure'
SPRE = '#include <noarr/structures/extra/struct_concepts.hpp>\n' + PRE + r'''
template<auto D, long N, class R> struct E_fn {};
template<auto D, class... R> struct E_dep {};
template<class T> struct E_sc {};
// a static length in the signature is the length; a length that is no constant is dynamic in the signature
template<class S, class E, bool Exact = false> constexpr bool sig_ok = false;
template<class T, bool X> constexpr bool sig_ok<noarr::scalar_sig<T>, E_sc<T>, X> = true;
template<class A, long N, bool X> constexpr bool len_ok = X ? N < 0 : true;
template<std::size_t L, long N, bool X> constexpr bool len_ok<noarr::static_arg_length<L>, N, X> = N >= 0 && std::size_t(N) == L;
template<auto D, class A, class R, long N, class Q, bool X> constexpr bool sig_ok<noarr::function_sig<D, A, R>, E_fn<D, N, Q>, X> = len_ok<A, N, X> && sig_ok<R, Q, X>;
template<auto D, class... R, class... Q, bool X> requires (sizeof...(R) == sizeof...(Q)) constexpr bool sig_ok<noarr::dep_function_sig<D, R...>, E_dep<D, Q...>, X> = (... && sig_ok<R, Q, X>);
'''


def const(e):
    """value of a length expression without parameters, else -1"""
    if e is None:
        return -1
    x = py(e)
    if re.search(r'[A-Za-z_]', x):
        return -1
    try:
        return eval(x.replace('/', '//'))
    except Exception:
        return -1


def tree(s, open_dims=()):
    """nested tuples: ('fn', d, N, sub) | ('dep', d, [subs]) | ('sc',)"""
    def go(prefix, paths, idx):
        if not paths[0][len(prefix):]:
            return ('sc', dict(prefix))
        d, k = paths[0][len(prefix)]
        if k is None:
            i2 = dict(idx)
            i2[d] = 'i' + d
            return ('fn', d, const(s.length(d, idx)), go(prefix + [(d, k)], paths, i2))
        subs = []
        ks = []
        for p in paths:
            if p[len(prefix)][1] not in ks:
                ks.append(p[len(prefix)][1])
        for kk in ks:
            i2 = dict(idx)
            i2[d] = 'u64(%d)' % kk
            subs.append(go(prefix + [(d, kk)], [p for p in paths if p[len(prefix)] == (d, kk)], i2))
        return ('dep', d, subs)
    paths = [list(p) for p in walk_dims(s)]
    return go([], paths, {})


def scalar_of(s, idx):
    """element type, following the tuple branches in idx"""
    t = s
    while True:
        if isinstance(t, Scalar):
            return t.t
        if isinstance(t, Tuple):
            return None
        t = t.sub


def enc(t, sc):
    if t[0] == 'sc':
        return 'E_sc<%s>' % (sc(t[1]) if callable(sc) else sc)
    if t[0] == 'fn':
        return "E_fn<'%s', %d, %s>" % (t[1], t[2], enc(t[3], sc))
    return "E_dep<'%s', %s>" % (t[1], ', '.join(enc(x, sc) for x in t[2]))


def dimtree(t):
    if t[0] == 'sc':
        return 'noarr::dim_sequence<>'
    if t[0] == 'fn':
        return "noarr::dim_tree<'%s', %s>" % (t[1], dimtree(t[3]))
    return "noarr::dim_tree<'%s', %s>" % (t[1], ', '.join(dimtree(x) for x in t[2]))


def accepts(t, d, f):
    if t[0] == 'sc':
        return False
    if t[0] == 'fn':
        return t[1] == d or accepts(t[3], d, f)
    return t[1] == d or f(accepts(x, d, f) for x in t[2])


def has_dep(t):
    return t[0] == 'dep' or (t[0] == 'fn' and has_dep(t[3]))


def sig_wit(pid, s, sc, exact=False, sized=True):
    t = tree(s)
    ps = ', '.join('u64 ' + p for p in s.params)
    b = ['using T_ = decltype(%s); using S_ = typename T_::signature;' % s.cpp]
    b.append('static_assert(sig_ok<S_, %s, %s>, "signature");' % (enc(t, sc), 'true' if exact else 'false'))
    b.append('static_assert(std::is_same_v<noarr::sig_dim_tree<S_>, %s>, "dimension tree");' % dimtree(t))
    for d in 'xyztABC':
        b.append("static_assert(S_::template any_accept<'%s'> == %s); static_assert(S_::template all_accept<'%s'> == %s); static_assert(noarr::HasDims<T_, '%s'> == %s);" % (
            d, str(accepts(t, d, any)).lower(), d, str(accepts(t, d, all)).lower(), d, str(accepts(t, d, any)).lower()))
    b.append('static_assert(noarr::is_point<T_>::value == %s);' % ('true' if t[0] == 'sc' else 'false'))
    b.append('static_assert(noarr::sig_is_cube<S_>::value == %s);' % ('false' if has_dep(t) else 'true'))
    if has_dep(t):
        b.append('static_assert(!noarr::is_cube<T_>::value);')
    else:
        if isinstance(sc, str):
            b.append('static_assert(std::is_same_v<noarr::scalar_t<T_>, %s>);' % sc)
        if sized:
            b.append('static_assert(noarr::is_cube<T_>::value);')
        ds = []
        x = t
        while x[0] == 'fn':
            ds.append(x[1])
            x = x[3]
    return Wit(pid, 'inline void f(%s) { %s }' % (ps, ' '.join(b)), 'signature of %s: %s' % (s.cpp, enc(t, sc)), A)


def mk(tier):
    th = tier == 'thorough'
    obs = []
    rng = random.Random(9)
    for name, make in recipes(th):
        Num.LITS = {}
        s = make()
        sc = scalar_of(s, {})
        obs.append(sig_wit('d_' + name, s, sc))
        envs = list(bindings(s.params, s.pre, {p: BIG for p in s.params}, hash_(name), 2))
        for m, env in enumerate(envs):
            for kind in ('all', 'mix'):
                if kind == 'all' and m and not th:
                    continue
                Num.LITS = {p: v for p, v in env.items() if kind == 'all' or rng.random() < .6}
                t = make()
                Num.LITS = {}
                obs.append(sig_wit('%s%d_%s' % (kind, m, name), t, sc))
    # base layouts: exactly the documented signature
    for name, s in wide_names(2 if not th else 20) + [(n, s) for n, s, b in wide_orders(2 if not th else 20, ('shift', 'rev', 'fix', 'many', 'manyo'))]:
        obs.append(sig_wit('w_' + name, s, scalar_of(s, {})))
    for name, s in base_cases() + wide_tuples():
        sc = scalar_of(s, {})
        if sc is None:
            continue
        obs.append(sig_wit('b_' + name, s, sc, exact=True))
    D, F, I = Scalar('double'), Scalar('float'), Scalar('int')
    L = LIT
    for name, s, sc in [('a1', SizedVector(F, 'x', L(42), 3), 'float'), ('a2', SizedVector(SizedVector(F, 'x', L(42), 3), 'y', L(54), 3), 'float'),
                        ('set', SetLength(Vector(F, 'x'), 'x', L(42)), 'float'), ('setd', SetLength(Vector(F, 'x'), 'x', N('n')), 'float'),
                        ('mixed', SizedVector(SizedVector(F, 'x', L(42)), 'y', N('m')), 'float'), ('open', Vector(SizedVector(I, 'x', L(3)), 'y'), 'int'),
                        ('fix', Fix(SizedVector(SizedVector(F, 'x', L(42), 3), 'y', L(54), 3), 'x', N('f')), 'float'), ('fixl', Fix(SizedVector(F, 'x', L(42), 3), 'x', L(6)), 'float'),
                        ('ren', Rename(SizedVector(SizedVector(F, 'x', L(42), 3), 'y', N('m')), 'x', 'A'), 'float'),
                        ('hoist', Hoist(SizedVector(SizedVector(F, 'x', L(42), 3), 'y', N('m')), 'x'), 'float'),
                        ('slice', Slice(SizedVector(F, 'x', L(42), 3), 'x', L(2), L(5)), 'float'), ('span', Span(SizedVector(F, 'x', L(42), 3), 'x', L(2), L(5)), 'float'),
                        ('shift', Shift(SizedVector(F, 'x', L(42), 3), 'x', L(2)), 'float'), ('step', Step(SizedVector(F, 'x', L(42), 3), 'x', L(2), L(5)), 'float'),
                        ('rev', Reverse(SizedVector(F, 'x', L(42), 3), 'x'), 'float'),
                        ('join', Join(SizedVector(SizedVector(F, 'x', L(42), 3), 'y', L(42), 3), 'x', 'y', 'z'), 'float'),
                        ('bc', Bcast(SizedVector(F, 'x', L(42), 3), 'y', N('m')), 'float'), ('bcl', Bcast(SizedVector(F, 'x', L(42), 3), 'y', L(7)), 'float')]:
        obs.append(sig_wit('doc_' + name, s, sc, exact=True, sized=name != 'open'))
    # tuples: element types per branch
    vx = SizedVector(I, 'x', N('n'))
    vxs = SizedVector(F, 'x', L(5), 3)
    vy = SizedVector(D, 'y', N('m'))
    for name, els, wrap in [('t2', (I, F), None), ('t3', (vx, vxs, vy), None), ('t3r', (vy, vx, vxs), None), ('vt', (vx, vxs, vy), lambda s: SizedVector(s, 'z', N('l'))),
                            ('vtf', (vx, vxs, vy), lambda s: Shift(SizedVector(s, 'z', L(9)), 'z', L(2))), ('tsh', (vx, vxs, vy), lambda s: Shift(s, 't', L(1))), ('trev', (vx, vxs, vy), lambda s: Reverse(s, 't')),
                            ('tsl', (vx, vxs, vy), lambda s: Slice(s, 't', L(1), L(2))), ('tsp', (vx, vxs, vy), lambda s: Span(s, 't', L(0), L(2))), ('tst', (vx, vxs, vy), lambda s: Step(s, 't', L(0), L(2))),
                            ('tfx', (vx, vxs, vy), lambda s: Fix(s, 't', L(1))), ('tfx2', (vx, vxs, vy), lambda s: Fix(s, 't', L(2))), ('tren', (vx, vxs, vy), lambda s: Rename(s, 't', 'A', 'x', 'B')), ('tbc', (vx, vxs, vy), lambda s: Bcast(s, 'z', N('l')))]:
        base = Tuple('t', *els)
        s = wrap(base) if wrap else base
        types = [scalar_of(e, {}) for e in els]
        nd = [x for x, k in s.dims() if k is not None]
        if name == 'tfx':
            sc = types[1]
        elif name == 'tfx2':
            sc = types[2]
        else:
            td = [d for p in walk_dims(s) for d, k in p if k is not None][0]
            pick = {'tsh': lambda k: k + 1, 'trev': lambda k: 2 - k, 'tsl': lambda k: k + 1, 'tst': lambda k: 2 * k}.get(name, lambda k: k)
            sc = (lambda td, pick, types: lambda ix: types[pick(ix[td])])(td, pick, types)
        obs.append(sig_wit('tup_' + name, s, sc, exact=name not in ('tren',)))
        # scalar_t with a state that selects the branch
        if callable(sc):
            for k in range(len([1 for p in {tuple(x for x in p if x[1] is not None) for p in walk_dims(s)}])):
                ps = ', '.join('u64 ' + p for p in s.params)
                obs.append(Wit('tupsc_%s_%d' % (name, k), "inline void f(%s) { using T_ = decltype(%s); static_assert(std::is_same_v<noarr::scalar_t<T_, decltype(noarr::idx<'%s'>(noarr::lit<%d>))>, %s>); static_assert(std::is_same_v<noarr::scalar_t<T_, decltype(noarr::idx<'z', '%s'>(1, noarr::lit<%d>))>, %s>); }" % (
                    ps, s.cpp, td, k, types[pick(k)], td, k, types[pick(k)]), 'scalar_t of tuple element', A))
    for name, s in tuple_views():
        pass
    # open lengths: is_cube needs a size; scalar types
    for i, t in enumerate(('char', 'short', 'int', 'float', 'double', 'std::uint64_t')):
        obs.append(Wit('sc%d' % i, "using A_ = noarr::scalar<%s>; static_assert(std::is_same_v<A_::signature, noarr::scalar_sig<%s>>); static_assert(std::is_same_v<noarr::scalar_t<decltype(A_() ^ noarr::vector<'x'>())>, %s>); static_assert(noarr::is_point<A_>::value && noarr::is_cube<A_>::value);" % (t, t, t), 'scalar<%s>' % t, A))
    # dimension sequence and dimension lookup
    obs.append(Wit('seq', "inline void f(u64 n) { using T_ = decltype(noarr::scalar<int>() ^ noarr::vector<'x'>(n) ^ noarr::vector<'y'>(noarr::lit<3>) ^ noarr::vector<'z'>(n)); using S_ = T_::signature; "
                   "static_assert(std::is_same_v<noarr::sig_find_dim<'y', noarr::state<>, S_>, noarr::function_sig<'y', noarr::static_arg_length<3>, noarr::function_sig<'x', noarr::dynamic_arg_length, noarr::scalar_sig<int>>>>); "
                   "static_assert(std::is_same_v<noarr::sig_find_dim<'x', noarr::state<>, S_>, noarr::function_sig<'x', noarr::dynamic_arg_length, noarr::scalar_sig<int>>>); "
                   "static_assert(std::is_same_v<noarr::sig_find_dim<'z', noarr::state<>, S_>, S_>); }", 'sig_find_dim', A))
    # what is a structure does not depend on the names of its dimensions
    for name, dimk, pre in (('dim', 'noarr::dim<K>{}', ''), ('chr', "static_cast<char>(33 + K)", ''), ('int', 'noarr::dim<static_cast<int>(K)>{}', '')):
        for form, e in (('vec', 'noarr::scalar<int>() ^ noarr::vector<D>() ^ noarr::set_length<D>(4)'), ('open', 'noarr::scalar<int>() ^ noarr::vector<D>()'), ('st', 'noarr::scalar<int>() ^ noarr::array<D, 7>()')):
            obs.append(Wit('isst_%s_%s' % (name, form),
                           'template<std::size_t K> constexpr bool one() { constexpr auto D = %s; return noarr::IsStruct<decltype(%s)> && noarr::IsStruct<const decltype(%s) &>; }'
                           ' template<std::size_t... K> constexpr bool all(std::index_sequence<K...>) { return (... && one<K>()); }'
                           ' static_assert(all(std::make_index_sequence<90>()));' % (dimk, e, e),
                           'a structure is a structure whatever its dimension is called (90 names)', A))
    return [Group(SPRE, obs, batch=30)]
