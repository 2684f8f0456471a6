"""Compile-time (lit) numbers and run-time numbers are interchangeable."""
import random
from ..core import Eq, Wit, Group, bindings
from ..model import *
from ..gen import *
from .layout import PRE, H, SLICES, BLOCKS, OTHER, stacks, anchor, tuple_views

BIG = [1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 16]


def recipes(th):
    """zero-argument constructors, so that the same structure can be rebuilt with other numbers static"""
    out = []
    V = SLICES + BLOCKS + OTHER

    def build(bi, chain):
        s = bases()[bi][1]
        for v, d in chain:
            s = apply_view(v, s, d)
        return s
    for bi, (bn, b) in enumerate(bases()):
        out.append((bn, lambda bi=bi: build(bi, [])))
        level = [[]]
        for depth in range(2):
            nxt = []
            for ch in level:
                s = build(bi, ch)
                for v in V:
                    ds = [d for d, k in s.dims() if k is None]
                    if v in ('vector', 'bcast'):
                        ds = ds[:1]
                    for d in ds:
                        if apply_view(v, s, d) is not None:
                            nxt.append(ch + [(v, d)])
            level = nxt
            if depth and bi > 1:
                break
            for ch in level:
                out.append(('_'.join([bn] + [v + d for v, d in ch]), lambda bi=bi, ch=ch: build(bi, ch)))
    r = random.Random(11)
    one = [x for x in out if x[0].count('_') <= 1 or any(x[0].endswith(e) for e in ('_samex', '_samey', '_shortx', '_shorty', '_majorx', '_majory'))]
    two = [x for x in out if x not in one]
    r.shuffle(two)
    return one + two[:1200 if th else 90]


def fold(e, env):
    return eval(py(e).replace('/', '//').replace('&&', ' and ').replace('||', ' or '), {}, dict(env))


def mk(tier):
    th = tier == 'thorough'
    obs = []
    rng = random.Random(3)
    for name, make in recipes(th):
        Num.LITS = {}
        s = make()
        assign = next(iter(walk_dims(s)))
        ip = ['i' + d for d, k in assign if k is None]
        dom = {p: BIG[1:] if p[0] in 'nml' else BIG for p in s.params}
        envs = list(bindings(s.params + ip, s.pre + range_pre(s, assign), dom, hash_(name), 3))
        if not envs:
            continue
        for m, env in enumerate(envs[:2 if not th else 3]):
            nums = {p: env[p] for p in s.params}
            half = {p: v for p, v in nums.items() if rng.random() < .5}
            for kind, lits, lix in (('all', nums, False), ('mix', half, False), ('mixi', half, True), ('idx', {}, True)):
                if m and (kind in ('all', 'idx') or not th):
                    continue
                Num.LITS = dict(lits)
                t = make()
                Num.LITS = {}
                asg = [(d, env['i' + d] if lix and k is None and (kind == 'idx' or rng.random() < .6) else k) for d, k in assign]
                w = '%s, static numbers %s%s' % (t.cpp, lits, ', static indices' if lix else '')
                idx, cpp, ipp = idx_exprs(asg)
                pre = t.pre + range_pre2(t, asg)
                obs.append(Eq('%s_%s%d_off' % (name, kind, m), t.params + ipp, 'auto S_ = %s; return u64(S_ | noarr::offset<%s>(%s));' % (t.cpp, dimlist([d for d, _ in asg]), ', '.join(cpp)) if asg else
                              'auto S_ = %s; return u64(S_ | noarr::offset());' % t.cpp, 'return %s;' % t.off(idx), pre, what='offset of ' + w, anchor=H + 'structs/*.hpp, base/utility.hpp: constexpr_arithmetic'))
                if kind != 'idx':
                    obs += size_obs('%s_%s%d' % (name, kind, m), t, w, H + 'base/utility.hpp: constexpr_arithmetic')
                if kind in ('all', 'mixi'):
                    cur, cc = {}, []
                    for (d, k), c in zip(asg, cpp):
                        L = t.length(d, cur)
                        if L is not None:
                            st = ' & '.join("noarr::idx<'%s'>(%s)" % x for x in cc) or 'noarr::empty_state'
                            obs.append(Eq('%s_%s%d_len%s' % (name, kind, m, d), t.params + ipp, "auto S_ = %s; return u64(S_ | noarr::get_length<'%s'>(%s));" % (t.cpp, d, st), 'return %s;' % L,
                                          pre, what='length of %s in %s' % (d, w), anchor=H + 'base/utility.hpp: constexpr_arithmetic'))
                        cur[d] = idx[d]
                        cc.append((d, c))
            # everything static: usable in constant expressions, with the folded value
            Num.LITS = dict(nums)
            t = make()
            Num.LITS = {}
            if t.params:
                continue
            idx, cpp, _ = idx_exprs([(d, env['i' + d] if k is None else k) for d, k in assign])
            dl = dimlist([d for d, _ in assign])
            try:
                oval, sval = fold(s.off(dict((d, 'i' + d if k is None else 'u64(%d)' % k) for d, k in assign)), env), fold(s.size(), env)
            except SyntaxError:
                continue
            body = 'constexpr auto S_ = %s; static_assert((S_ | noarr::get_size()) == u64(%d), "size"); static_assert((S_ | noarr::offset<%s>(%s)) == u64(%d), "offset");' % (t.cpp, sval, dl, ', '.join(cpp), oval)
            if not assign:
                body = 'constexpr auto S_ = %s; static_assert((S_ | noarr::get_size()) == u64(%d), "size"); static_assert((S_ | noarr::offset()) == u64(%d), "offset");' % (t.cpp, sval, oval)
            obs.append(Wit('%s_const%d' % (name, m), body, 'constant evaluation of %s at %s' % (t.cpp, cpp), H + 'base/utility.hpp: constexpr_arithmetic'))
    return [Group(PRE, obs, batch=40)]


def range_pre2(s, assign):
    pre, idx = [], {}
    for d, k in assign:
        L = s.length(d, idx)
        if k is None:
            if L is not None:
                pre.append('i%s < %s' % (d, py(L)))
            idx[d] = 'i' + d
        else:
            if L is not None:
                pre.append('%d < %s' % (k, py(L)))
            idx[d] = 'u64(%d)' % k
    return pre


def hash_(s):
    import zlib
    return zlib.crc32(s.encode())
