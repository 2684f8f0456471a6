"""Bags: structure + data.  Element addresses, delegation, ownership (allocate once, release once, never copied)."""
import itertools
import random
from ..core import Eq, Wit, Neg, Group
from ..model import *
from ..gen import *
from .layout import PRE, H, SLICES, BLOCKS, OTHER, stacks, base_cases

A = H + 'interop/bag.hpp: bag_t'
BP = PRE + '#include <memory>\n#include <new>\n#include <vector>\n'
# a container whose every construction (71), copy (72, 73), release by assignment (74) and destruction (75) is an effect
BOX = '''
template<class T> struct box {
	u64 p; bool live = true;
	explicit box(u64 n) : p(n * 3) { sink2(71, n); }
	box(const box &o) : p(o.p), live(o.live) { sink2(72, p); }
	box(box &&o) noexcept : p(o.p), live(o.live) { o.p = 0; o.live = false; }
	box &operator=(const box &o) { sink2(73, o.p); p = o.p; live = o.live; return *this; }
	box &operator=(box &&o) noexcept { if (live) sink2(74, p); p = o.p; live = o.live; o.p = 0; o.live = false; return *this; }
	~box() { if (live) sink2(75, p); }
	char *data() noexcept { return (char *)p; }
	const char *data() const noexcept { return (const char *)p; }
};
'''


def states(ds, cs):
    return ' & '.join("noarr::idx<'%s'>(%s)" % (d, c) for d, c in zip(ds, cs)) or 'noarr::empty_state'


def cases(th):
    out = [(n, s) for n, s in base_cases()]
    V = SLICES + BLOCKS + ['rename', 'hoist', 'bcast']
    out += [(n, s) for n, s, _ in stacks(V, 1, bases()[:4])]
    deep = [(n, s) for n, s, _ in stacks(V, 2, bases()[:2])]
    random.Random(3).shuffle(deep)
    return out + deep[:400 if th else 40]


def proto_of(s, sub):
    p = s.cpp[len(sub.cpp):].strip()
    assert p.startswith('^'), s.cpp
    return p[1:].strip()


def mk(tier):
    th = tier == 'thorough'
    obs = []
    for name, s in cases(th):
        for j, assign in enumerate(itertools.islice(walk_dims(s), 4)):
            idx, cs, ip = idx_exprs(assign)
            ds = [d for d, _ in assign]
            pre = s.pre + range_pre(s, assign)
            off = s.off(idx)
            st = states(ds, cs)
            at = '.template at<%s>(%s)' % (dimlist(ds), ', '.join(cs)) if ds else '[noarr::empty_state]'
            k = '%s_%d' % (name, j)
            offc = '.template offset<%s>(%s)' % (dimlist(ds), ', '.join(cs))
            # raw and const raw bags: same element through every access form, data and structure delegated
            obs.append(Eq('raw_' + k, s.params + ip + ['p'], 'auto S_ = %s; auto b_ = noarr::make_bag(S_, (void *)p); auto c_ = b_; const auto &d_ = c_; auto e_ = std::move(c_); auto st_ = %s; '
                          'sink4(u64(&b_[st_]), u64(&d_[st_]), u64(&e_%s), u64(b_.data())); sink2(u64(&b_.get_ref()[st_]), u64(&(noarr::bag(S_, (void *)p)[st_]))); sink(b_%s); sink(u64(b_.size()));'
                          % (s.cpp, st, at, offc), 'u64 a_ = p + (%s); sink4(a_, a_, a_, p); sink2(a_, a_); sink(%s); sink(%s);' % (off, off, s.size()), pre, ret='void',
                          what='element of a raw bag of ' + s.cpp, anchor=A + '::operator[], at, offset, data, get_ref'))
            obs.append(Eq('craw_' + k, s.params + ip + ['p'], 'auto S_ = %s; auto b_ = noarr::make_bag(S_, (const void *)p); auto st_ = %s; static_assert(std::is_const_v<std::remove_reference_t<decltype(b_[st_])>>); '
                          'sink3(u64(&b_[st_]), u64(&b_%s), u64(b_.data())); sink(u64(&b_.get_ref()[st_])); static_assert(std::is_const_v<std::remove_reference_t<decltype(b_.get_ref()[st_])>>);'
                          % (s.cpp, st, at), 'u64 a_ = p + (%s); sink3(a_, a_, p); sink(a_);' % off, pre, ret='void', what='element of a read-only bag of ' + s.cpp, anchor=A))
            # the free function, on a structure, for pointers of every constness
            obs.append(Eq('gat_' + k, s.params + ip + ['p'], 'auto S_ = %s; auto st_ = %s; void *v_ = (void *)p; sink4(%s); sink4(%s);' % (
                s.cpp, st, ', '.join('u64(&(S_ | noarr::get_at((%svoid *)v_, st_)))' % c for c in ('', 'const ', 'volatile ', 'const volatile ')),
                ', '.join('u64(&(S_ | noarr::get_at%s))' % ('<%s>((%svoid *)v_, %s)' % (dimlist(ds), c, ', '.join(cs)) if ds else '((%svoid *)v_, noarr::empty_state)' % c) for c in ('', 'const ', 'volatile ', 'const volatile '))),
                'u64 a_ = p + (%s); sink4(a_, a_, a_, a_); sink4(a_, a_, a_, a_);' % off, pre, ret='void', what='get_at of ' + s.cpp, anchor=H + 'extra/funcs.hpp: get_at, sub_ptr'))
            # lengths through the bag
            cur, cc = {}, []
            for d, _ in assign:
                L = s.length(d, cur)
                if L is not None:
                    cst = states([x for x, _ in cc], [c for _, c in cc])
                    obs.append(Eq('len_%s_%s' % (k, d), s.params + ip, "auto b_ = noarr::make_bag(%s, (void *)u64(64)); auto st_ = %s; sink2(u64(b_.template length<'%s'>(st_)), u64(b_ | noarr::get_length<'%s'>(st_)));" % (
                        s.cpp, cst, d, d), 'sink2(%s, %s);' % (L, L), pre, ret='void', what='length of %s through a bag of %s' % (d, s.cpp), anchor=A + '::length'))
                cur[d] = idx[d]
                cc.append((d, cs[len(cc)]))
    # owning bags: one allocation of exactly the size, zero-filled, one release
    own = [(n, s) for n, s in cases(th) if s.scalar_t is None]
    for name, s in own[:60 if not th else None]:
        for j, assign in enumerate(itertools.islice(walk_dims(s), 1)):
            idx, cs, ip = idx_exprs(assign)
            ds = [d for d, _ in assign]
            pre = s.pre + range_pre(s, assign)
            off, st = s.off(idx), states(ds, cs)
            k = '%s_%d' % (name, j)
            alloc = 'u64 n_ = %s; char *q_ = new char[n_](); ' % s.size()
            obs.append(Eq('own_' + k, s.params + ip, 'auto S_ = %s; auto b_ = noarr::make_bag(S_); sink2(u64(b_.data()), u64(&b_[%s]));' % (s.cpp, st),
                          alloc + 'sink2(u64(q_), u64(q_ + (%s))); if (q_) delete[] q_;' % off, pre, ret='void', what='owning bag of ' + s.cpp, anchor=A))
            obs.append(Eq('mov_' + k, s.params + ip, 'auto S_ = %s; auto b_ = noarr::make_bag(S_); auto c_ = std::move(b_); sink(u64(b_.data())); sink2(u64(c_.data()), u64(&c_[%s])); auto r_ = c_.get_ref(); sink(u64(r_.data()));' % (s.cpp, st),
                          alloc + 'sink(0); sink2(u64(q_), u64(q_ + (%s))); sink(u64(q_)); if (q_) delete[] q_;' % off, pre, ret='void', what='moving an owning bag of ' + s.cpp, anchor=A))
            obs.append(Eq('asg_' + k, s.params + ip, 'auto S_ = %s; auto b_ = noarr::make_bag(S_); auto c_ = noarr::make_bag(S_); mark(1); c_ = std::move(b_); mark(2); sink2(u64(b_.data()), u64(c_.data()));' % s.cpp,
                          'u64 n_ = %s; char *q_ = new char[n_](); char *w_ = new char[n_](); mark(1); if (w_) delete[] w_; mark(2); sink2(0, u64(q_)); if (q_) delete[] q_;' % s.size(), pre, ret='void',
                          what='move assignment of owning bags of ' + s.cpp, anchor=A))
            obs.append(Eq('ext_' + k, s.params + ip + ['p'], 'auto S_ = %s; auto b_ = noarr::bag(S_, std::unique_ptr<char[]>((char *)p)); sink2(u64(b_.data()), u64(&b_[%s]));' % (s.cpp, st),
                          'sink2(p, p + (%s)); if (p) delete[] (char *)p;' % off, pre, ret='void', what='bag taking over a unique_ptr, ' + s.cpp, anchor=A))
    # bag ^ proto: same data, the view of the structure
    V = SLICES + BLOCKS + ['rename', 'hoist', 'bcast']
    for name, s, vs in stacks(V, 1, bases()[:2]):
        sub = dict(bases())[name.split('_')[0]]
        if 'symspan' in vs:
            continue
        pr = proto_of(s, sub)
        assign = next(iter(walk_dims(s)))
        idx, cs, ip = idx_exprs(assign)
        ds = [d for d, _ in assign]
        pre = s.pre + range_pre(s, assign)
        off, st = s.off(idx), states(ds, cs)
        obs.append(Eq('xraw_' + name, s.params + ip + ['p'], 'auto b_ = noarr::make_bag(%s, (void *)p); auto c_ = b_ ^ %s; auto d_ = noarr::make_bag(%s, (void *)p) ^ (%s); sink3(u64(&c_[%s]), u64(&d_[%s]), u64(c_.data())); sink(u64(b_.data()));' % (
            sub.cpp, pr, sub.cpp, pr, st, st), 'u64 a_ = p + (%s); sink3(a_, a_, p); sink(p);' % off, pre, ret='void', what='raw bag ^ ' + pr, anchor=A + ', operator^'))
        obs.append(Eq('xown_' + name, s.params + ip, 'auto b_ = noarr::make_bag(%s); auto c_ = std::move(b_) ^ %s; sink(u64(b_.data())); sink2(u64(&c_[%s]), u64(c_.data()));' % (sub.cpp, pr, st),
                      'u64 n_ = %s; char *q_ = new char[n_](); sink(0); sink2(u64(q_ + (%s)), u64(q_)); if (q_) delete[] q_;' % (sub.size(), off), pre, ret='void', what='owning bag ^ ' + pr, anchor=A + ', operator^'))
    # containers other than unique_ptr: constructed once from the size, handed over by moving, never copied
    for name, s in own[:40 if not th else None]:
        assign = next(iter(walk_dims(s)))
        idx, cs, ip = idx_exprs(assign)
        ds = [d for d, _ in assign]
        pre = s.pre + range_pre(s, assign)
        off, st = s.off(idx), states(ds, cs)
        acc = ['.template at<%s>(%s)' % (dimlist(ds), ', '.join(cs)) if ds else '[noarr::empty_state]', '[%s]' % st]
        mkb = 'auto S_ = %s; using B_ = noarr::bag_t<decltype(S_), noarr::helpers::bag_policy<box>>; ' % s.cpp
        con = 'u64 n_ = %s; sink2(71, n_); u64 q_ = n_ * 3; ' % s.size()
        obs.append(Eq('box_' + name, s.params + ip, mkb + 'B_ b_(S_); sink3(u64(b_.data()), u64(&b_%s), u64(&b_%s)); B_ c_(std::move(b_)); mark(1); sink2(u64(b_.data()), u64(c_.data())); sink2(u64(&c_%s), u64(c_.get_ref().data()));' % (acc[0], acc[1], acc[1]),
                      con + 'u64 e_ = q_ + (%s); sink3(q_, e_, e_); mark(1); sink2(0, q_); sink2(e_, q_); sink2(75, q_);' % off, pre, ret='void', what='bag owning a user container, ' + s.cpp, anchor=A + ', bag_policy<container>'))
        obs.append(Eq('boxa_' + name, s.params + ip, mkb + 'B_ b_(S_); B_ c_(S_); mark(1); c_ = std::move(b_); mark(2); sink2(u64(b_.data()), u64(c_.data()));',
                      con + 'sink2(71, n_); mark(1); sink2(74, q_); mark(2); sink2(0, q_); sink2(75, q_);', pre, ret='void', what='move assignment of bags owning a user container, ' + s.cpp, anchor=A + ', bag_policy<container>'))
        obs.append(Eq('boxt_' + name, s.params + ip, mkb + 'box<char> x_(7); B_ b_(S_, std::move(x_)); sink2(u64(b_.data()), u64(x_.p)); const B_ &r_ = b_; sink3(u64(&r_%s), u64(r_.data()), u64(r_.get_ref().data()));' % acc[0],
                      'sink2(71, 7); sink2(21, 0); sink3(21 + (%s), 21, 21); sink2(75, 21);' % off, pre, ret='void', what='bag taking over a user container, ' + s.cpp, anchor=A + ', bag_policy<container>'))
    for name, s, vs in stacks(V, 1, bases()[:3]):
        sub = dict(bases())[name.split('_')[0]]
        if 'symspan' in vs:
            continue
        pr = proto_of(s, sub)
        assign = next(iter(walk_dims(s)))
        idx, cs, ip = idx_exprs(assign)
        st = states([d for d, _ in assign], cs)
        pre = s.pre + range_pre(s, assign)
        mkb = 'auto S_ = %s; using B_ = noarr::bag_t<decltype(S_), noarr::helpers::bag_policy<box>>; ' % sub.cpp
        obs.append(Eq('xbox_' + name, s.params + ip, mkb + 'B_ b_(S_); auto c_ = std::move(b_) ^ %s; sink(u64(b_.data())); sink3(u64(&c_[%s]), u64(c_.data()), u64(c_.get_ref().data()));' % (pr, st),
                      'u64 n_ = %s; sink2(71, n_); u64 q_ = n_ * 3; sink(0); sink3(q_ + (%s), q_, q_); sink2(75, q_);' % (sub.size(), s.off(idx)), pre, ret='void', what='view of a bag owning a user container: ' + pr, anchor=A + ', operator^'))
    for name, s in own[:12 if not th else 60]:
        assign = next(iter(walk_dims(s)))
        idx, cs, ip = idx_exprs(assign)
        st = states([d for d, _ in assign], cs)
        pre = s.pre + range_pre(s, assign)
        obs.append(Eq('vec_' + name, s.params + ip, 'auto S_ = %s; auto b_ = noarr::make_vector_bag(S_); sink2(u64(b_.data()), u64(&b_[%s])); auto c_ = std::move(b_); sink2(u64(b_.data()), u64(c_.data()));' % (s.cpp, st),
                      'std::vector<char> v_(%s); sink2(u64(v_.data()), u64(v_.data()) + (%s)); sink2(0, u64(v_.data()));' % (s.size(), s.off(idx)), pre, ret='void', what='vector bag of ' + s.cpp, anchor=A + ': make_vector_bag'))
    # element types, value access
    for t in ('char', 'short', 'int', 'float', 'double', 'std::uint64_t'):
        tt = t.replace('std::', '')
        obs.append(Eq('ty_' + tt, ['n', 'i', 'p'], "auto b_ = noarr::make_bag(noarr::scalar<%s>() ^ noarr::vector<'x'>(n), (void *)p); static_assert(std::is_same_v<decltype(b_[noarr::idx<'x'>(i)]), %s &>); "
                      "static_assert(std::is_same_v<decltype(b_.template at<'x'>(i)), %s &>); b_[noarr::idx<'x'>(i)] = %s(3); b_.template at<'x'>(i + 1) = b_[noarr::idx<'x'>(i + 2)];" % (t, t, t, t),
                      '((%s *)p)[i] = %s(3); ((%s *)p)[i + 1] = ((%s *)p)[i + 2];' % (t, t, t, t), ['i + 2 < n'], ret='void', what='reads and writes of a bag of ' + t, anchor=A))
        obs.append(Wit('rty_' + tt, "inline void f(u64 n, void *p, const void *q) { auto S_ = noarr::scalar<%s>() ^ noarr::vector<'x'>(n); auto st = noarr::idx<'x'>(1); "
                       "static_assert(std::is_same_v<decltype(noarr::make_bag(S_)[st]), %s &>); static_assert(std::is_same_v<decltype(noarr::make_bag(S_, q)[st]), const %s &>); "
                       "static_assert(std::is_same_v<decltype(S_ | noarr::get_at(p, st)), %s &>); static_assert(std::is_same_v<decltype(S_ | noarr::get_at(q, st)), const %s &>); "
                       "static_assert(std::is_same_v<decltype(S_ | noarr::get_at((volatile void *)p, st)), volatile %s &>); }" % (t, t, t, t, t, t), 'type of an element of ' + t, A))
    # traverser states and nullptr bags
    obs.append(Eq('nullbag', ['n', 'm', 'i', 'j'], "auto b_ = noarr::make_bag(noarr::scalar<int>() ^ noarr::vector<'x'>(n) ^ noarr::vector<'y'>(m), nullptr); return b_.template offset<'x', 'y'>(i, j);",
                  'return 4*(j*n + i);', what='offset in a bag without data', anchor=A))
    obs.append(Eq('trav_state', ['n', 'i', 'p'], "auto S_ = noarr::scalar<int>() ^ noarr::vector<'x'>(n); auto b_ = noarr::make_bag(S_, (void *)p); auto t_ = noarr::traverser(S_) ^ noarr::fix<'x'>(i); return u64(&b_[t_]);",
                  'return p + 4*i;', ['i < n'], what='a fully fixed traverser as an index', anchor=A))
    C = "constexpr auto S_ = noarr::scalar<int>() ^ noarr::vector<'x'>(noarr::lit<4>) ^ noarr::vector<'y'>(noarr::lit<3>); "
    neg = []

    def n(id, good, bad, what):
        neg.append(Neg(id, good, bad, what, A, C))
    n('copy_own', 'inline auto f() { auto b = noarr::make_bag(S_); auto c = std::move(b); return c.size(); }', 'inline auto f() { auto b = noarr::make_bag(S_); auto c = b; return c.size(); }', 'an owning bag cannot be copied')
    n('copy_asg', 'inline void f() { auto b = noarr::make_bag(S_); auto c = noarr::make_bag(S_); b = std::move(c); }', 'inline void f() { auto b = noarr::make_bag(S_); auto c = noarr::make_bag(S_); b = c; }', 'an owning bag cannot be copy-assigned')
    n('copy_vec', 'inline void f() { auto b = noarr::make_vector_bag(S_); auto c = std::move(b); (void)c; }', 'inline void f() { auto b = noarr::make_vector_bag(S_); auto c = b; (void)c; }', 'a vector bag cannot be copied')
    n('view_lv', "inline auto f() { auto b = noarr::make_bag(S_); auto c = std::move(b) ^ noarr::shift<'x'>(1); return c.size(); }", "inline auto f() { auto b = noarr::make_bag(S_); auto c = b ^ noarr::shift<'x'>(1); return c.size(); }", 'a view of an owning lvalue bag')
    for nm, p in (('vec', "noarr::vector<'z'>(2)"), ('arr', "noarr::array<'z', 2>()"), ('tup', "noarr::tuple<'z'>()"), ('comp', "(noarr::shift<'x'>(1) ^ noarr::vector<'z'>(2))"), ('comp2', "(noarr::vector<'z'>(2) ^ noarr::shift<'x'>(1))")):
        n('lay_' + nm, "inline auto f(void *p) { auto b = noarr::make_bag(S_, p); auto c = b ^ noarr::bcast<'z'>(2); return c.size(); }", "inline auto f(void *p) { auto b = noarr::make_bag(S_, p); auto c = b ^ %s; return c.size(); }" % p, 'a layout-changing proto-structure on a bag')
        n('layo_' + nm, "inline auto f() { auto c = noarr::make_bag(S_) ^ noarr::bcast<'z'>(2); return c.size(); }", "inline auto f() { auto c = noarr::make_bag(S_) ^ %s; return c.size(); }" % p, 'a layout-changing proto-structure on an owning bag')
    n('const_w', "inline void f(void *p) { auto b = noarr::make_bag(S_, p); b[noarr::idx<'x', 'y'>(1, 2)] = 3; }", "inline void f(const void *p) { auto b = noarr::make_bag(S_, p); b[noarr::idx<'x', 'y'>(1, 2)] = 3; }", 'writing through a read-only bag')
    n('const_at', "inline void f(void *p) { auto b = noarr::make_bag(S_, p); b.at<'x', 'y'>(1, 2) = 3; }", "inline void f(const void *p) { auto b = noarr::make_bag(S_, p); b.at<'x', 'y'>(1, 2) = 3; }", 'writing through a read-only bag')
    n('const_ref', "inline void f(void *p) { auto b = noarr::make_bag(S_, p); b.get_ref().at<'x', 'y'>(1, 2) = 3; }", "inline void f(const void *p) { auto b = noarr::make_bag(S_, p); b.get_ref().at<'x', 'y'>(1, 2) = 3; }", 'writing through a reference to a read-only bag')
    n('const_view', "inline void f(void *p) { auto b = noarr::make_bag(S_, p) ^ noarr::shift<'x'>(1); b.at<'x', 'y'>(1, 2) = 3; }", "inline void f(const void *p) { auto b = noarr::make_bag(S_, p) ^ noarr::shift<'x'>(1); b.at<'x', 'y'>(1, 2) = 3; }", 'writing through a view of a read-only bag')
    n('incompl', "inline auto &f(void *p) { auto b = noarr::make_bag(S_, p); return b[noarr::idx<'x', 'y'>(1, 2)]; }", "inline auto &f(void *p) { auto b = noarr::make_bag(S_, p); return b[noarr::idx<'x'>(1)]; }", 'an incomplete index')
    n('incompl_at', "inline auto &f(void *p) { auto b = noarr::make_bag(S_, p); return b.at<'x', 'y'>(1, 2); }", "inline auto &f(void *p) { auto b = noarr::make_bag(S_, p); return b.at<'y'>(1); }", 'an incomplete index')
    n('incompl_off', "inline auto f(void *p) { auto b = noarr::make_bag(S_, p); return b.offset<'x', 'y'>(1, 2); }", "inline auto f(void *p) { auto b = noarr::make_bag(S_, p); return b.offset<'y'>(1); }", 'an incomplete index')
    n('nolen', "inline auto f(void *p) { auto b = noarr::make_bag(S_, p); return b.length<'x'>(); }", "inline auto f(void *p) { auto b = noarr::make_bag(S_, p); return b.length<'z'>(); }", 'the length of an unknown dimension')
    n('open', "inline auto f() { return noarr::make_bag(S_).size(); }", "inline auto f() { return noarr::make_bag(noarr::scalar<int>() ^ noarr::vector<'x'>()).size(); }", 'allocating a structure of unknown size')
    n('ptr_own', 'inline noarr::raw_bag<decltype(S_)> f(void *p) { return noarr::make_bag(S_, p); }', 'inline noarr::raw_bag<decltype(S_)> f(const void *p) { return noarr::make_bag(S_, p); }', 'a read-only bag as a writable one')
    return [Group(BP + BOX, obs, batch=40), Group(BP, neg)]
