"""Iterators and ranges of traversers: range-for, random access, sub-ranges and splitting visit the same elements as the traversal."""
import itertools
from ..core import Eq, Wit, Neg, Group
from ..model import *
from ..gen import *
from .layout import PRE, H, stacks, bases, SLICES, BLOCKS, tuple_views
from .trav import TPRE, TR, trav_ob, loops, order_of, to_base, leaf_code, sink_call, natural

A = H + 'interop/traverser_iter.hpp'
IPRE = '#include <tbb/tbb.h>\n' + TPRE + '#include <noarr/structures/interop/tbb.hpp>\n#include <iterator>\n'
# any sub-range: what repeated splitting may lead to (no claim if ranges do not keep their bounds in these members)
SUB = '''
template<class R>
constexpr bool sub_range(R &r, u64 b, u64 e) {
	if constexpr (requires { r.begin_idx = b; r.end_idx = e; }) {
		r.begin_idx = b;
		r.end_idx = e;
		return true;
	} else {
		return false;
	}
}
'''
IPRE += SUB


def leaf_of(s, b):
    e = trav_ob('x', s, b)
    return e.impl[e.impl.index('[=](auto s) {') + len('[=](auto s) {'):e.impl.rindex('}')]


def top(s):
    ds = s.dims()
    return ds[0][0] if ds and not isinstance(ds[0][1], tuple) else None


def from_to(s, b, d, lo, hi, rest=None):
    """loops with dimension d outermost, running from lo to hi"""
    ds = [x for x in s.dims() if x[0] != d]
    if lo == '0':
        return 'for (u64 jt = 0, et = %s; jt < et; jt++) { %s }' % (hi, loops(s, b, None, ds, {d: 'jt'}))
    return 'for (u64 jt = 0, et = (%s) - (%s); jt < et; jt++) { u64 jl = %s + jt; %s }' % (hi, lo, lo, loops(s, b, None, ds, {d: 'jl'}))


def at(s, b, d, i):
    return loops(s, b, None, [x for x in s.dims() if x[0] != d], {d: i})


def ok_first(s, d):
    """lengths are available with d outermost"""
    idx = {}
    for x, k in [y for y in s.dims() if y[0] == d] + [y for y in s.dims() if y[0] != d]:
        if isinstance(k, tuple) or s.length(x, idx) is None:
            return False
        idx[x] = 'q'
    return True


def T(s, b):
    o = order_of(s, b)
    return 'auto B_ = %s; auto T_ = noarr::traverser(B_)%s; ' % (b.cpp, '.order(%s)' % o if o else '')


def it_obs(name, s, b, full):
    d = top(s)
    if d is None or not ok_first(s, d):
        return []
    L = s.length(d, {})
    leaf = leaf_of(s, b)
    fe = '.for_each([=](auto s) {%s})' % leaf
    t = T(s, b)
    w = '%s in order %s' % (b.cpp, order_of(s, b) or '(none)')
    out = []

    def e(id, params, impl, spec, pre=(), what='', ret='void'):
        out.append(Eq('%s_%s' % (name, id), s.params + params, t + impl, spec, list(s.pre) + list(pre), ret=ret, what='%s of the traverser of %s' % (what, w), anchor=A))
    e('for', [], 'for (auto t : T_) t%s;' % fe, from_to(s, b, d, '0', L), what='range-based for')
    e('rfe', [], 'T_.range()%s;' % fe, from_to(s, b, d, '0', L), what='range().for_each')
    if not full:
        return out
    e('rfor', [], 'for (auto t : T_.range()) t%s;' % fe, from_to(s, b, d, '0', L), what='range-based for over range()')
    e('rdfor', [], "for (auto t : T_.template range<'%s'>()) t%s;" % (d, fe), from_to(s, b, d, '0', L), what='range-based for over range<%s>()' % d)
    e('ridx', [], 'auto R_ = T_.range(); for (u64 i = 0; i < R_.size(); i++) R_[i]%s;' % fe, from_to(s, b, d, '0', L), what='range()[i]')
    e('cfor', [], 'auto R_ = T_.range(); for (auto i = R_.cbegin(); i != R_.cend(); ++i) (*i)%s;' % fe, from_to(s, b, d, '0', L), what='cbegin/cend')
    e('bfor', [], 'for (auto i = T_.begin(), e = T_.end(); i < e; i++) (*i)%s;' % fe, from_to(s, b, d, '0', L), what='begin/end')
    e('back', [], 'for (auto i = T_.end(), e = T_.begin(); i != e;) { --i; (*i)%s; }' % fe, 'for (u64 c = %s; c != 0; ) { --c; u64 jt = c; %s }' % (L, at(s, b, d, 'jt')), what='backward iteration')
    e('ast', [], 'T_.range().as_traverser()%s;' % fe, from_to(s, b, d, '0', L), what='range().as_traverser()')
    e('size', [], 'auto R_ = T_.range(); sink(u64(T_.end() - T_.begin())); sink(R_.size()); sink(R_.end() - R_.begin()); sink(R_.empty()); sink(R_.is_divisible());',
      'u64 L_ = %s; sink(L_); sink(L_); sink(L_); sink(L_ == 0); sink(L_ > 1);' % L, what='size, empty, is_divisible')
    rng = ['a < %s' % L]
    for nm, x, i in (('plus', '*(T_.begin() + std::ptrdiff_t(a))', 'a'), ('plus2', '*(std::ptrdiff_t(a) + T_.begin())', 'a'), ('sub', 'T_.begin()[a]', 'a'), ('idx', 'T_.range()[a]', 'a'),
                     ('minus', '*(T_.end() - std::ptrdiff_t(a + 1))', '(%s - (a + 1))' % L), ('peq', '[&] { auto i = T_.begin(); i += a; return *i; }()', 'a'), ('meq', '[&] { auto i = T_.end(); i -= a + 1; return *i; }()', '(%s - (a + 1))' % L),
                     ('inc', '[&] { auto i = T_.begin() + a; ++i; return *i; }()', '(a+1)'), ('inc2', '[&] { auto i = T_.begin() + a; auto j = i++; return *j; }()', 'a'), ('inc3', '[&] { auto i = T_.begin() + a; i++; return *i; }()', '(a+1)'),
                     ('dec', '[&] { auto i = T_.begin() + (a + 1); --i; return *i; }()', 'a'), ('dec2', '[&] { auto i = T_.begin() + a; auto j = i--; return *j; }()', 'a'), ('dec3', '[&] { auto i = T_.begin() + (a + 1); i--; return *i; }()', 'a'),
                     ('subat', '(T_.begin() + 1)[a]', '(a+1)'), ('asg', '[&] { auto i = T_.begin(); i = T_.begin() + a; return *i; }()', 'a')):
        e('at_' + nm, ['a'], '(%s)%s;' % (x, fe), at(s, b, d, i), ['a + 1 < %s' % L], what='element at ' + x)
    e('cmp', ['a', 'c'], 'auto i = T_.begin() + a, j = T_.begin() + c; sink(i == j); sink(i != j); sink(i < j); sink(i <= j); sink(i > j); sink(i >= j); sink(u64(j - i));',
      'auto o = a <=> c; sink(o == 0); sink(o != 0); sink(o < 0); sink(o <= 0); sink(o > 0); sink(o >= 0); sink(c - a);', ['a <= %s' % L, 'c <= %s' % L], what='comparisons and difference')
    out.append(Wit('%s_cat' % name, 'inline void f(%s) { %s using I = decltype(T_.begin()); static_assert(std::is_same_v<std::iterator_traits<I>::iterator_category, std::random_access_iterator_tag>); '
                   'static_assert(std::is_same_v<I, decltype(T_.range().begin())> && std::is_same_v<I, decltype(T_.end())>); static_assert(std::is_same_v<std::remove_cvref_t<decltype(*T_.begin())>, std::iterator_traits<I>::value_type>); '
                   'static_assert(noarr::IsTraverser<std::iterator_traits<I>::value_type>); }' % (', '.join('u64 ' + p for p in s.params), t), 'iterator category of the traverser of ' + w, A))
    return out


def range_dim_obs(name, s, b):
    """range<Dim>() of any dimension whose length needs no other index"""
    out = []
    for d, k in s.dims():
        if isinstance(k, tuple) or not ok_first(s, d):
            continue
        L = s.length(d, {})
        fe = '.for_each([=](auto s) {%s})' % leaf_of(s, b)
        t = T(s, b)
        w = "range<'%s'>() of the traverser of %s in order %s" % (d, b.cpp, order_of(s, b) or '(none)')
        out.append(Eq('%s_rd%s' % (name, d), s.params, t + "for (auto t : T_.template range<'%s'>()) t%s;" % (d, fe), from_to(s, b, d, '0', L), s.pre, ret='void', what=w, anchor=A))
        out.append(Eq('%s_ri%s' % (name, d), s.params + ['a'], t + "T_.template range<'%s'>()[a]%s;" % (d, fe), at(s, b, d, 'a'), s.pre + ['a < ' + L], ret='void', what=w, anchor=A))
        out.append(Eq('%s_rs%s' % (name, d), s.params, t + "auto R_ = T_.template range<'%s'>(); sink(R_.size()); R_%s;" % (d, fe), 'sink(%s); %s' % (L, loops(s, b)), s.pre, ret='void', what=w, anchor=A))
    return out


def split_obs(name, s, b):
    d = top(s)
    if d is None or not ok_first(s, d):
        return []
    out = []
    t = T(s, b)
    fe = '.for_each([=](auto s) {%s})' % leaf_of(s, b)
    L = s.length(d, {})
    w = 'split range of the traverser of %s in order %s' % (b.cpp, order_of(s, b) or '(none)')
    an = H + 'interop/tbb.hpp, interop/traverser_iter.hpp'
    sp = t + 'auto R_ = T_.range(); decltype(R_) Q_(R_, tbb::split()); '
    # where the range is cut is free; the left part is [0, mid), the right part is [mid, L)
    out.append(Eq(name + '_sum', s.params, sp + 'sink(R_.size() + Q_.size());', 'sink(%s);' % L, s.pre, ret='void', what=w + ': sizes', anchor=an))
    out.append(Eq(name + '_ne', s.params, sp + 'if (%s >= 2) { sink(R_.empty()); sink(Q_.empty()); }' % L, 'if (%s >= 2) { sink(0); sink(0); }' % L, s.pre, ret='void', what=w + ': both parts of a divisible range are non-empty', anchor=an))
    out.append(Eq(name + '_l', s.params, sp + 'R_%s; mark(5); Q_%s;' % (fe, fe), sp + 'u64 mid = R_.size(); %s mark(5); %s' % (from_to(s, b, d, '0', 'mid'), from_to(s, b, d, 'mid', L)), s.pre, ret='void', what=w + ': elements', anchor=an))
    out.append(Eq(name + '_i', s.params, sp + 'for (auto t : R_) t%s; mark(5); for (auto t : Q_) t%s;' % (fe, fe), sp + 'u64 mid = R_.size(); %s mark(5); %s' % (from_to(s, b, d, '0', 'mid'), from_to(s, b, d, 'mid', L)), s.pre, ret='void', what=w + ': iteration', anchor=an))
    out.append(Eq(name + '_x', s.params + ['a'], sp + 'Q_[a]%s;' % fe, sp + 'u64 mid = R_.size(); %s' % at(s, b, d, '(mid + a)'), s.pre + ['a < (%s+1)/2' % L], ret='void', what=w + ': indexing', anchor=an))
    # splitting again
    out.append(Eq(name + '_4', s.params, sp + 'decltype(R_) RR_(R_, tbb::split()), QQ_(Q_, tbb::split()); R_%s; mark(1); RR_%s; mark(2); Q_%s; mark(3); QQ_%s;' % (fe, fe, fe, fe),
                  sp + 'decltype(R_) RR_(R_, tbb::split()), QQ_(Q_, tbb::split()); u64 a = R_.size(), b = a + RR_.size(), c = b + Q_.size(), e = c + QQ_.size(); %s mark(1); %s mark(2); %s mark(3); %s' % (
                      from_to(s, b, d, '0', 'a'), from_to(s, b, d, 'a', 'b'), from_to(s, b, d, 'b', 'c'), from_to(s, b, d, 'c', 'e')), s.pre, ret='void', what=w + ': splitting again', anchor=an))
    out.append(Eq(name + '_4s', s.params, sp + 'decltype(R_) RR_(R_, tbb::split()), QQ_(Q_, tbb::split()); sink(R_.size() + RR_.size() + Q_.size() + QQ_.size());', 'sink(%s);' % L, s.pre, ret='void', what=w + ': splitting again, sizes', anchor=an))
    for v, x in (('r', 'R_'), ('q', 'Q_')):
        out.append(Eq(name + '_4n' + v, s.params, sp + 'if (%s.is_divisible()) { decltype(R_) RR_(%s, tbb::split()); sink(%s.empty()); sink(RR_.empty()); }' % (x, x, x), sp + 'if (%s.size() > 1) { sink(0); sink(0); }' % x, s.pre, ret='void', what=w + ': splitting again, both parts of a divisible part are non-empty', anchor=an))
    return out


def sub_obs(name, s, b, full=True):
    """a range over [lo, hi): elements, iteration, indexing, order, splitting"""
    d = top(s)
    if d is None or not ok_first(s, d):
        return []
    out = []
    t = T(s, b) + 'auto R_ = T_.range(); '
    fe = '.for_each([=](auto s) {%s})' % leaf_of(s, b)
    L = s.length(d, {})
    w = 'a sub-range of the traverser of %s in order %s' % (b.cpp, order_of(s, b) or '(none)')
    an = H + 'interop/tbb.hpp, interop/traverser_iter.hpp'
    pre = list(s.pre) + ['lo <= hi', 'hi <= ' + L]

    def e(id, impl, spec, what, ps=(), extra=()):
        g = 'if (sub_range(R_, lo, hi)) { %s }'
        out.append(Eq('%s_b%s' % (name, id), list(s.params) + ['lo', 'hi'] + list(ps), t + g % impl, t + g % spec, pre + list(extra), ret='void', what='%s: %s' % (w, what), anchor=an))
    sp = 'decltype(R_) Q_(R_, tbb::split()); '
    el = lambda lo, hi: from_to(s, b, d, lo, hi)
    rel = lambda lo, hi: 'for (u64 jt = 0, et = (%s) - (%s); jt < et; jt++) { u64 jl = %s + jt; %s }' % (hi, lo, lo, loops(s, b, None, [x for x in s.dims() if x[0] != d], {d: 'jl'}))
    e('fe', 'R_%s;' % fe, rel('lo', 'hi'), 'for_each')
    e('for', 'for (auto t : R_) t%s;' % fe, rel('lo', 'hi'), 'range-based for')
    e('idx', 'R_[a]%s;' % fe, at(s, b, d, '(lo + a)'), 'indexing', ['a'], ['a < hi - lo'])
    e('size', 'sink(R_.size()); sink(u64(R_.end() - R_.begin())); sink(u64(R_.cend() - R_.cbegin())); sink(R_.empty()); sink(R_.is_divisible());', 'u64 n_ = hi - lo; sink(n_); sink(n_); sink(n_); sink(n_ == 0); sink(n_ > 1);', 'size, empty, is_divisible')
    e('ord', 'R_.order(noarr::neutral_proto())%s;' % fe, rel('lo', 'hi'), 'order')
    if not full:
        return out
    e('ast', 'R_.as_traverser()%s;' % fe, rel('lo', 'hi'), 'as_traverser')
    e('sl', "R_.order(noarr::slice<'%s'>(a, c))%s;" % (d, fe), rel('(lo + a)', '(lo + a + c)'), 'order slice', ['a', 'c'], ['a <= hi - lo', 'c <= hi - lo', 'a + c <= hi - lo'])
    e('rv', "R_.order(noarr::reverse<'%s'>())%s;" % (d, fe), 'for (u64 jt = 0, et = hi - lo; jt < et; jt++) { u64 jl = (hi - 1) - jt; %s }' % at(s, b, d, 'jl'), 'order reverse')
    e('sum', sp + 'sink(R_.size() + Q_.size());', 'sink(hi - lo);', 'sizes of the parts')
    e('ne', 'if (R_.is_divisible()) { %s sink(R_.empty()); sink(Q_.empty()); }' % sp, 'if (hi - lo > 1) { sink(0); sink(0); }', 'the parts of a divisible range are not empty')
    e('sp', sp + 'R_%s; mark(5); Q_%s;' % (fe, fe), sp + 'u64 m_ = lo + R_.size(); %s mark(5); %s' % (rel('lo', 'm_'), rel('m_', 'hi')), 'elements of the parts')
    return out


def mk(tier):
    th = tier == 'thorough'
    obs = []
    I, F = Scalar('int'), Scalar('float')
    bs = bases()
    vt = SizedVector(Tuple('t', I, SizedVector(I, 'x', N('n'))), 'z', N('l'))
    static = SizedVector(SizedVector(I, 'x', LIT(4)), 'y', LIT(3))
    mixed = SizedVector(SizedVector(I, 'x', N('n')), 'y', LIT(3))
    for name, b in bs + [('vt', vt), ('sta', static), ('mix', mixed), ('bc', Bcast(SizedVector(I, 'x', N('n')), 'y', N('m')))]:
        obs += it_obs(name, b, b, True)
        if name != 'vt':
            obs += range_dim_obs(name, b, b)
        obs += split_obs('sp_' + name, b, b)
        obs += sub_obs('sb_' + name, b, b)
    vs = list(dict.fromkeys(SLICES + ['blocks', 'dyn', 'merge', 'rename', 'hoist', 'fix', 'bcast']))
    for name, s, _ in stacks(vs, 1, bs):
        b = dict(bs)[name.split('_')[0]]
        if not natural(s):
            continue
        obs += it_obs('v_' + name, s, b, th)
        if b is bs[1][1] or th:
            obs += range_dim_obs('v_' + name, s, b)
            obs += split_obs('sp_' + name, s, b)
            obs += sub_obs('sb_' + name, s, b, th)
    if th:
        for name, s, _ in stacks(['slice', 'step', 'reverse', 'blocks', 'dyn', 'hoist', 'rename'], 2, bs[1:2]):
            if natural(s):
                obs += it_obs('w_' + name, s, bs[1][1], False)
                obs += range_dim_obs('w_' + name, s, bs[1][1])
    # order() of a range is the order applied to the ranged traverser
    b = bs[1][1]
    for v in ['slice', 'span', 'shift', 'step', 'reverse', 'blocks', 'hoist', 'rename', 'fix', 'dyn']:
        for d in 'xy':
            s = apply_view(v, b, d)
            if s is None or not natural(s):
                continue
            fe = '.for_each([=](auto s) {%s})' % leaf_of(s, b)
            obs.append(Eq('ro_%s%s' % (v, d), s.params, 'auto B_ = %s; noarr::traverser(B_).range().order(%s)%s;' % (b.cpp, order_of(s, b), fe), loops(s, b), s.pre, ret='void', what='order on a range: ' + s.cpp, anchor=A))
    # a range of a bag's or union's traverser
    A_ = SizedVector(SizedVector(I, 'x', N('n')), 'y', N('m'))
    B_ = SizedVector(SizedVector(F, 'z', N('l')), 'x', N('n'))
    spec = 'for (u64 jz = 0; jz < l; jz++) for (u64 jy = 0; jy < m; jy++) for (u64 jx = 0; jx < n; jx++) sink3(jz, jy, jx);'
    for nm, args in (('un', '%s, %s' % (A_.cpp, B_.cpp)), ('unb', 'noarr::make_bag(%s, (char *)4096), noarr::make_bag(%s, (char *)4096)' % (A_.cpp, B_.cpp))):
        for f, c in (('for', 'for (auto t : T_) t'), ('r', 'T_.range()'), ('rf', 'for (auto t : T_.range()) t')):
            obs.append(Eq('%s_%s' % (nm, f), ['n', 'm', 'l'], 'auto T_ = noarr::traverser(%s); %s.for_each([=](auto s) { %s });' % (args, c, leaf_code(None, ['z', 'y', 'x'])), spec, ret='void', what='%s over a union' % c, anchor=A))
    # state() of an element: the fixed index
    obs.append(Eq('st', ['n', 'm'], 'for (auto t : noarr::traverser(%s)) { auto s = t.state(); %s }' % (A_.cpp, leaf_code(None, ['y'])), 'for (u64 j = 0; j < m; j++) sink(j);', ret='void', what='state() of an element of a traverser', anchor=A))
    obs.append(Neg('top_tuple', 'inline void f(std::size_t n) { noarr::traverser(noarr::pack(noarr::scalar<int>(), noarr::scalar<int>()) ^ noarr::tuple<\'t\'>() ^ noarr::vector<\'x\'>(n)).begin(); }',
                   'inline void f(std::size_t n) { noarr::traverser(noarr::pack(noarr::scalar<int>(), noarr::scalar<int>()) ^ noarr::tuple<\'t\'>()).begin(); }', 'a tuple dimension cannot be iterated at run time', A))
    return [Group(IPRE, obs, batch=16)]
