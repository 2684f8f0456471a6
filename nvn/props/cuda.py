"""CUDA helpers (C24): stripes, binding of dimensions to blocks and threads, splitting among threads."""
from ..core import Eq, Wit, Group
from .. import trace, nf, build
from ..model import *
from ..gen import *
from .layout import H
from .trav import TPRE, loops, order_of, leaf_code

CPRE = TPRE + '''#include "cuda_builtins.h"
#include <cooperative_groups.h>
#include <noarr/structures/interop/cuda_striped.cuh>
#include <noarr/structures/interop/cuda_traverser.cuh>
#include <noarr/structures/interop/cuda_step.cuh>
#include <noarr/structures/interop/bag.hpp>
struct rgb_t { unsigned char c[3]; };
struct vec12_t { float c[3]; };
struct vec16_t { float c[4]; };
'''
CS = 'include/noarr/structures/interop/cuda_striped.cuh: cuda_striped_t'
CT = 'include/noarr/structures/interop/cuda_traverser.cuh: cuda_traverser_t'
CX = 'include/noarr/structures/interop/cuda_step.cuh: cuda_step'


class Coord:
    """an index given by a 32-bit coordinate"""

    def __init__(self, p):
        self.name, self.lit, self.cpp, self.spec, self.py = p, None, 'uint(%s)' % p, 'u64(uint(%s))' % p, p


def geometry(es, ns, bc, bw):
    """the layout of the current code; any other layout with the documented guarantees is accepted (see judge)"""
    pad = lambda v, m: (v + m - 1) // m * m
    spw = bc // ns * bw
    if spw < es:
        spw = pad(es, bw)
    we = spw // es
    return dict(spw=spw, we=we, w=we * es, tw=pad(spw * ns, bc * bw))


def judge(es, ns, bc, bw, inner, we=1):
    """the documented guarantees, on the summary of (offset, size) as functions of the element, the stripe and the length"""
    free = es <= bc // ns * bw      # a conflict-free layout exists
    pad = (es + bw - 1) // bw * bw
    limit = 1 if free else (pad * ns + bc * bw - 1) // (bc * bw)

    def check(summ):
        for n in sorted({1, 2, 3, 5, 8, 17, 33, 50, we, we + 1, 2 * we + 1}):
            cells, bytes_, banks = {}, {}, {}
            delta = None
            conflicts = {}
            for i in sorted(set(range(min(n, 50))) | {i for i in (we - 1, we, we + 1, 2 * we, n - 1) if 0 <= i < n}):
                for c in range(inner):
                    prev = None
                    for st in range(ns):
                        try:
                            r, t = trace.observe(summ, {'n': (n, 64), 'ix': (i, 64), 'ic': (c, 64), 'st': (st, 64)})
                        except (nf.NoValue, KeyError):
                            return None
                        if r == trace.PREFIX:
                            return None
                        off, size = t[0][2], t[0][3]
                        esz = es // inner
                        who = 'n=%d, element %d, stripe %d' % (n, i, st)
                        if c == 0:
                            base = off
                        if off + esz > size:
                            return '%s: bytes [%d,%d) are outside of the size %d' % (who, off, off + esz, size)
                        for b in range(off, off + esz):
                            if bytes_.setdefault(b, (i, c, st)) != (i, c, st):
                                return '%s: byte %d also belongs to element %s of stripe %d' % (who, b, bytes_[b][:2], bytes_[b][2])
                            if cells.setdefault(b // bw, st) != st:
                                return '%s: the cell of byte %d also contains data of stripe %d' % (who, b, cells[b // bw])
                            bank = b // bw % bc
                            if free and banks.setdefault(bank, st) != st:
                                return '%s: bank %d also contains data of stripe %d' % (who, bank, banks[bank])
                            conflicts.setdefault((i, bank), set()).add(st)
                            if len(conflicts[i, bank]) > limit:
                                return '%s: %d stripes meet in bank %d, %d can be achieved' % (who, len(conflicts[i, bank]), bank, limit)
                        if prev is not None:
                            if delta is None:
                                delta = off - prev
                            if off - prev != delta:
                                return '%s: the distance to the previous stripe is %d, elsewhere %d' % (who, off - prev, delta)
                        prev = off
                        if st == 0 and c and off != first + c * esz:
                            return '%s: the element is not consecutive' % who
                        if st == 0 and c == 0:
                            first = off
        return None
    return check


ELEMS = [('std::uint8_t', 1), ('std::uint16_t', 2), ('float', 4), ('double', 8), ('rgb_t', 3), ('vec12_t', 12), ('vec16_t', 16)]


def stripes(th):
    obs = []
    banks = [(None, 32, 4), ('64, 4', 64, 4)] + ([('16, 4', 16, 4), ('32, 8', 32, 8), ('1, 4', 1, 4), ('2, 2', 2, 2)] if th else [('16, 8', 16, 8), ('3, 2', 3, 2)])
    for es_t, es in ELEMS:
        for ns in ((1, 2, 3, 4, 5, 6, 7, 8, 11, 16, 17, 31, 32, 33, 40, 64, 128) if th else (1, 2, 3, 6, 8, 16, 32, 40)):
            for bargs, bc, bw in banks:
                g = geometry(es, ns, bc, bw)
                key = '%s_%d_%d_%d' % (es_t.replace('std::', ''), ns, bc, bw)
                proto = 'noarr::cuda_striped<%d%s>()' % (ns, '' if bargs is None else ', noarr::scalar<%s>, %s' % (es_t, bargs) if ns % 2 else ', ' + bargs)
                s = "noarr::scalar<%s>() ^ noarr::vector<'x'>() ^ noarr::set_length<'x'>(n) ^ %s" % (es_t, proto)
                size = '((n * %d / %d + %d) / %d * %d)' % (es, es, g['we'] - 1, g['we'], g['tw'])
                off = 'ix * %d / %d * %d + st * %d' % (es, g['w'], g['tw'], g['spw']) + (' + ix * %d %% %d' % (es, g['w']) if g['we'] > 1 else '')
                pre = ['ix < n', 'st < %d' % ns]
                j = judge(es, ns, bc, bw, 1, g['we'])
                o = Eq('st_' + key, ['n', 'ix', 'st'], "auto S_ = %s; sink2(u64(S_ | noarr::offset(noarr::idx<'x'>(ix) + noarr::cuda_stripe_idx(st))), u64(S_ | noarr::get_size()));" % s,
                       'sink2(%s, %s);' % (off, size), pre, ret='void', what='stripes of ' + s, anchor=CS)
                o.judge = j
                obs.append(o)
                if bargs is None:
                    obs.append(Eq('thr_' + key, ['n', 'ix', 't'], "auto S_ = %s; threadIdx.x = uint(t); sink2(u64(S_ | noarr::offset<'x'>(ix)), u64(S_ | noarr::get_length<'x'>()));" % s,
                                  "auto S_ = %s; threadIdx.x = uint(t); u64 st = u64(uint(t)) %% %d; sink2(u64(S_ | noarr::offset(noarr::idx<'x'>(ix) + noarr::cuda_stripe_idx(st))), n);" % (s, ns), ['ix < n'], ret='void',
                                  what='the stripe of a thread of ' + s, anchor=CS))
                free = es <= bc // ns * bw
                pad = (es + bw - 1) // bw * bw
                limit = 1 if free else (pad * ns + bc * bw - 1) // (bc * bw)
                obs.append(Wit('cf_' + key, "constexpr u64 n = 100; using T = decltype(%s); static_assert(T::max_conflict_size == %d, \"number of conflicts\");" % (s, limit), 'conflicts of ' + s, CS + '::max_conflict_size'))
    # an element type that is a structure: its content stays together
    for ns in (1, 3, 6, 10, 32):
        for inner in (2, 3, 5):
            es = inner
            g = geometry(es, ns, 32, 4)
            s = "noarr::scalar<std::uint8_t>() ^ noarr::array<'c', %d>() ^ noarr::vector<'x'>() ^ noarr::set_length<'x'>(n) ^ noarr::cuda_striped<%d, noarr::array_t<'c', %d, noarr::scalar<std::uint8_t>>>()" % (inner, ns, inner)
            raw = '(ix * %d + ic)' % inner
            o = Eq('stc_%d_%d' % (ns, inner), ['n', 'ix', 'ic', 'st'], "auto S_ = %s; sink2(u64(S_ | noarr::offset(noarr::idx<'x', 'c'>(ix, ic) + noarr::cuda_stripe_idx(st))), u64(S_ | noarr::get_size()));" % s,
                   'sink2(%s / %d * %d + st * %d + %s %% %d, (n * %d / %d + %d) / %d * %d);' % (raw, g['w'], g['tw'], g['spw'], raw, g['w'], es, es, g['we'] - 1, g['we'], g['tw']),
                   ['ix < n', 'ic < %d' % inner, 'st < %d' % ns], ret='void', what='stripes of ' + s, anchor=CS)
            o.judge = judge(es, ns, 32, 4, inner, g['we'])
            obs.append(o)
    # the group of the threads of one stripe
    for ns in (1, 2, 6, 32):
        s = "noarr::scalar<float>() ^ noarr::array<'x', 100>() ^ noarr::cuda_striped<%d>()" % ns
        obs.append(Eq('cg_%d' % ns, ['t', 'w'], 'auto S_ = %s; threadIdx.x = uint(t); blockDim.x = uint(w); auto g = S_.current_stripe_cg(); sink4(g.thread_rank(), g.num_threads(), S_.current_stripe_index(), S_.num_stripes());' % s,
                      'threadIdx.x = uint(t); blockDim.x = uint(w); u64 k = u64(uint(t)) %% %d; sink4(u64(uint(t)) / %d, (u64(uint(w)) + %d - k - 1) / %d, k, %d);' % (ns, ns, ns, ns, ns), ['t < w'],
                      ret='void', what='group of the threads of one of %d stripes' % ns, anchor=CS + '::current_stripe_cg'))
    return obs


def lens(s, d):
    return 'u64(%s)' % s.length(d, {})


SET = 'blockIdx.x = uint(bx); threadIdx.x = uint(tx); '
SETY = 'blockIdx.y = uint(by); threadIdx.y = uint(ty); '
SETZ = 'blockIdx.z = uint(bz); threadIdx.z = uint(tz); '


def threads(th):
    obs = []
    bs = dict(bases())
    v2, v3, v2d = bs['v2'], bs['v3'], bs['v2d']
    I = Scalar('int')
    v6 = I
    for k, d in enumerate('abcdef'):
        v6 = SizedVector(v6, d, N('n%d' % k))
    cs = []      # name, structure, order, pairs (block, thread)
    for b, bn in ((v2, 'v2'), (v2d, 'v2d'), (v3, 'v3')):
        for x in b.dims():
            for y in b.dims():
                if x != y:
                    cs.append(('%s_%s%s' % (bn, x[0], y[0]), b, b, [(x[0], y[0])]))
    ab = [('abcdef', 3), ('fedcba', 3), ('facebd', 3), ('abcd', 2), ('dbca', 2), ('fa', 1)]
    for s, k in ab:
        cs.append(('v6_' + s, v6, v6, [(s[2 * i], s[2 * i + 1]) for i in range(k)]))
    B = lambda s, d, D: IntoBlocks(s, d, D, d, N('k' + d))
    for bn, b in (('v2', v2), ('v3', v3), ('v2d', v2d)):
        for blk, nm in ((IntoBlocks, 'blk'), (IntoBlocksDyn, 'dyn')):
            def mk(s, d, D, R):
                return IntoBlocks(s, d, D, d, N('k' + d)) if blk is IntoBlocks else IntoBlocksDyn(s, d, D, d, R, N('k' + d))
            one = mk(b, 'x', 'X', 'r')
            two = mk(one, 'y', 'Y', 's')
            cs.append(('%s_%s1' % (bn, nm), b, one, [('X', 'x')]))
            cs.append(('%s_%s2' % (bn, nm), b, two, [('X', 'x'), ('Y', 'y')]))
            cs.append(('%s_%s2s' % (bn, nm), b, two, [('Y', 'y'), ('X', 'x')]))
            cs.append(('%s_%s2m' % (bn, nm), b, two, [('X', 'y'), ('Y', 'x')]))
    for v, d in (('slice', 'x'), ('step', 'y'), ('reverse', 'x'), ('shift', 'y'), ('hoist', 'x'), ('span', 'z')):
        t = apply_view(v, v3, d)
        cs.append(('v3_%s%s' % (v, d), v3, t, [('x', 'y')]))
        cs.append(('v3_%s%s_zx' % (v, d), v3, t, [('z', 'x')]))
    for key, b, s, pairs in cs:
        names = [('bx', 'tx'), ('by', 'ty'), ('bz', 'tz')][:len(pairs)]
        sets = (SET + SETY + SETZ) if len(pairs) == 3 else (SET + SETY) if len(pairs) == 2 else SET
        co = [c for p in names for c in p]
        f = s
        try:
            for (B_, T_), (pb, pt) in zip(pairs, names):
                f = Fix(f, T_, Coord(pt))
                f = Fix(f, B_, Coord(pb))
        except KeyError:
            continue
        params = s.params + co
        pre = list(f.pre)
        o = order_of(s, b) if s is not b else ''
        tr = 'noarr::traverser(%s)%s' % (b.cpp, '.order(%s)' % o if o else '')
        dl = ', '.join("'%s', '%s'" % p for p in pairs)
        cu = 'noarr::cuda_threads<%s>(%s)' % (dl, tr)
        leaf = leaf_code(b, [d for d, _ in b.dims()])
        obs.append(Eq('in_' + key, params, 'auto T_ = %s.inner(); %s T_.for_each([=](auto s) { %s });' % (cu, sets, leaf), sets + loops(f, b), pre, ret='void',
                      what='the part of one thread of %s' % cu, anchor=CT + '::inner'))
        obs.append(Eq('is_' + key, params, 'auto T_ = %s.inner(); %s T_.for_sections([=](auto t) { auto s = t.state(); %s });' % (cu, sets, leaf), sets + loops(f, b), pre, ret='void',
                      what='the part of one thread of %s, by for_sections' % cu, anchor=CT + '::inner'))
        lb = [s.length(B_, {}) for B_, T_ in pairs]
        lt = [s.length(T_, {}) for B_, T_ in pairs]
        if None in lb + lt:
            continue
        cut = lambda l: ', '.join(['u64(uint(%s))' % x for x in l] + ['1'] * (3 - len(l)))
        obs.append(Eq('gd_' + key, s.params, 'auto T_ = %s; dim3 g = T_.grid_dim(), b = T_.block_dim(); sink3(g.x, g.y, g.z); sink3(b.x, b.y, b.z);' % cu,
                      'sink3(%s); sink3(%s);' % (cut(lb), cut(lt)), s.pre, ret='void', what='launch parameters of ' + cu, anchor=CT + '::grid_dim'))
        obs.append(Eq('bool_' + key, s.params, 'auto T_ = %s; if (T_) mark(1);' % cu, 'if (%s) mark(1);' % ' && '.join('(%s) != 0' % x for x in lt + lb), s.pre, ret='void',
                      what='whether there is anything to launch for ' + cu, anchor=CT + '::operator bool'))
    return obs


def steps(th):
    obs = []
    bs = dict(bases())
    block = 'threadIdx.x = uint(tx); blockDim.x = uint(bw); '
    grid = block + 'blockIdx.x = uint(bx); gridDim.x = uint(gw); '
    cg = 'struct CG { static u64 thread_rank() { return %s; } }; '
    G = ['cg_rank', 'cg_num']
    pre_cg = 'static u64 cg_rank_, cg_num_; struct CG_%s { static u64 thread_rank() { return cg_rank_; } static u64 num_threads() { return cg_num_; } };'
    for bn, b in bs.items():
        for d, _ in b.dims():
            outer = b.dims()[0][0]
            for nm, st, set_, rank, num, ps in (
                    ('block', "noarr::cuda_step_block<%s>()", block, 'u64(uint(tx))', 'u64(uint(bw))', ['tx', 'bw']),
                    ('grid', "noarr::cuda_step_grid<%s>()", grid, 'u64(uint(bx))*u64(uint(bw))+u64(uint(tx))', 'u64(uint(gw))*u64(uint(bw))', ['tx', 'bw', 'bx', 'gw']),
                    ('obj', "noarr::cuda_step<%s>(cg_)", 'noarr::helpers::simple_cg_t cg_(r, k); ', 'r', 'k', ['r', 'k']),
                    ('type', "noarr::cuda_step<%s>()", block, 'u64(uint(tx))', 'u64(uint(bw))', ['tx', 'bw'])):
                for named in (True, False):
                    if not named and d != outer:
                        continue
                    arg = "'%s'" % d if named else ''
                    if nm == 'type':
                        arg = (arg + ', ' if named else '') + '::cooperative_groups::thread_block'
                    if nm == 'grid' and d != outer and not th:
                        continue
                    view = st % arg
                    view = view.replace('<>', '')

                    class R:
                        name = lit = None
                    start, step = R(), R()
                    start.cpp = start.spec = '(0 + %s)' % rank
                    step.cpp = step.spec = '(0 + %s)' % num
                    start.py = {'block': 'tx', 'type': 'tx', 'obj': 'r', 'grid': 'tx'}[nm]
                    step.py = {'block': 'bw', 'type': 'bw', 'obj': 'k', 'grid': 'bw'}[nm]
                    s = Step(b, d, start, step)
                    leaf = leaf_code(b, [x for x, _ in b.dims()])
                    extra = 'blockDim.y = blockDim.z = gridDim.y = gridDim.z = 1; threadIdx.y = threadIdx.z = blockIdx.y = blockIdx.z = 0; ' if nm != 'obj' else ''
                    pre = list(s.pre) + (['bx < gw'] if nm == 'grid' else [])
                    obs.append(Eq('cs_%s_%s_%s%s' % (bn, d, nm, '' if named else '0'), b.params + ps, extra + set_ + 'noarr::traverser(%s).order(%s).for_each([=](auto s) { %s });' % (b.cpp, view, leaf),
                                  extra + set_ + loops(s, b), pre, ret='void', what='%s over %s' % (view, b.cpp), anchor=CX))
    return obs


def mk(tier):
    th = tier == 'thorough'
    return [Group(CPRE, stripes(th) + threads(th) + steps(th), [build.COORDS])]
