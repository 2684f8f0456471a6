"""Parallel helpers (TBB, OpenMP, std::execution): what is handed to which callback, and what is shared."""
import copy
import itertools
import re
from ..core import Eq, Wit, Neg, Group
from ..model import *
from ..gen import *
from .layout import PRE, H, stacks, bases, SLICES, BLOCKS
from .trav import TPRE, trav_ob, loops, order_of, to_base, leaf_code, sink_call, natural, base_dims
from .iter import leaf_of, split_obs, sub_obs, SUB, top, ok_first, from_to
from .plan import to_planner

TPR = '#include <tbb/tbb.h>\n' + TPRE + '#include <noarr/structures/extra/planner.hpp>\n#include <noarr/structures/interop/tbb.hpp>\n' + SUB
SPR = '#include <execution>\n#include <algorithm>\n' + TPRE + '#include <noarr/structures/extra/planner.hpp>\n#include <noarr/structures/interop/std_para.hpp>\n'
OPR = '#include <omp.h>\n' + TPRE + '#include <noarr/structures/extra/planner.hpp>\n#include <noarr/structures/interop/omp.hpp>\n'
AN = {'tbb': H + 'interop/tbb.hpp', 'std': H + 'interop/std_para.hpp', 'omp': H + 'interop/omp.hpp'}


def T(s, b):
    o = order_of(s, b)
    return 'auto B_ = %s; auto T_ = noarr::traverser(B_)%s; ' % (b.cpp, '.order(%s)' % o if o else '')


def cut(s, b, d, body, split):
    """body(lo, hi) for each part"""
    L = s.length(d, {})
    if not split:
        return body('0', L)
    return 'auto R_ = T_.range(); decltype(R_) Q_(R_, tbb::split()); u64 mid = R_.size(); { %s } { %s }' % (body('0', 'mid'), body('mid', L))


def each_obs(lib, name, s, b):
    d = top(s)
    if d is None or not ok_first(s, d):
        return []
    out = []
    an = AN[lib]
    t = T(s, b)
    leaf = leaf_of(s, b)
    split = lib == 'tbb'
    w = 'the traverser of %s in order %s' % (b.cpp, order_of(s, b) or '(none)')
    spec = (t if split else '') + cut(s, b, d, lambda lo, hi: from_to(s, b, d, lo, hi), split)
    out.append(Eq('%s_%s_fe' % (lib, name), s.params, t + 'noarr::%s_for_each(T_, [](auto s) { %s });' % (lib, leaf), spec, s.pre, ret='void', what='%s_for_each of %s' % (lib, w), anchor=an))
    out.append(Eq('%s_%s_fs' % (lib, name), s.params, t + 'noarr::%s_for_sections(T_, [](auto t) { mark(1); t.for_each([](auto s) { %s }); });' % (lib, leaf),
                  (t if split else '') + cut(s, b, d, lambda lo, hi: from_to(s, b, d, lo, hi).replace('{', '{ mark(1);', 1), split), s.pre, ret='void', what='%s_for_sections of %s' % (lib, w), anchor=an))
    # planners
    o = order_of(s, b)
    pl = 'auto B_ = %s; auto P_ = noarr::planner(noarr::make_union(B_))%s.for_each([](auto s) { %s }); P_ | noarr::planner_%s_execute();' % (b.cpp, '.order(%s)' % o if o else '', leaf, lib)
    out.append(Eq('%s_%s_pl' % (lib, name), s.params, pl, (t if split else '') + cut(s, b, d, lambda lo, hi: from_to(s, b, d, lo, hi), split), s.pre, ret='void', what='planner_%s_execute of %s' % (lib, w.replace('traverser', 'planner')), anchor=an))
    # callbacks with state of their own
    pl = 'auto B_ = %s; u64 k = 5; auto P_ = noarr::planner(noarr::make_union(B_))%s.for_each([k, &B_](auto s) { mark(k); %s }); P_ | noarr::planner_%s_execute();' % (b.cpp, '.order(%s)' % o if o else '', leaf, lib)
    if all(not isinstance(k, tuple) for _, k in b.dims()):
        leafspec = lambda lo, hi: from_to(s, b, d, lo, hi).replace('sink', 'mark(5); sink')
        out.append(Eq('%s_%s_plc' % (lib, name), s.params, pl, (t if split else '') + cut(s, b, d, leafspec, split), s.pre, ret='void', what='planner_%s_execute with captures of %s' % (lib, w.replace('traverser', 'planner')), anchor=an))
    return out


def reduce_obs(name, s, b, outs, one=False):
    """tbb_reduce: outs = list of (name, out structure, shared?); one: both parts are run by the same thread"""
    d = top(s)
    if d is None or not ok_first(s, d):
        return []
    res = []
    t = T(s, b)
    w = 'tbb_reduce over %s in order %s' % (b.cpp, order_of(s, b) or '(none)')
    bd = b.dimnames()
    for on, o, shared in outs:
        od = o.dimnames()
        flat = all(not isinstance(k, tuple) for _, k in o.dims())
        ps = list(dict.fromkeys(s.params + o.params))
        pre = list(dict.fromkeys(list(s.pre) + list(o.pre)))
        no = len(od) if flat else 1
        oi = ', '.join("u64(noarr::get_index<'%s'>(st))" % x for x in od) if flat else 'u64(O_ | noarr::offset(st))'
        call = ('noarr::tbb_reduce(T_, [O_](auto st, void *q) { mark(1); sink%s((u64)q, %s); }, [](auto st, void *q) { mark(2); sink%s((u64)q, %s); }, [O_](auto st, void *q, const void *r) { mark(3); sink%s((u64)q, (u64)r, %s); }, O_, (void *)p);' % (
            no + 1, oi, len(bd) + 1, ', '.join("u64(noarr::get_index<'%s'>(st))" % x for x in bd), no + 2, oi))
        ol = lambda m, ptr: loops(o, o, lambda idx: 'mark(%d); sink%d(%s, %s);' % (m, no + ptr.count(',') + 1, ptr, ', '.join(idx[x] for x in od) if flat else o.off(idx)))

        def accs(lo, hi, ptr):
            ds = [x for x in s.dims() if x[0] != d]
            body = lambda idx: 'mark(2); sink%d(%s, %s);' % (len(bd) + 1, ptr, ', '.join(to_base(s, b, idx)[x] for x in bd))
            return 'for (u64 jt = 0, et = (%s) - (%s); jt < et; jt++) { u64 jl = %s + jt; %s }' % (hi, lo, lo, loops(s, b, body, ds, {d: 'jl'}))
        L = s.length(d, {})
        st = t + 'auto R_ = T_.range(); decltype(R_) Q_(R_, tbb::split()); u64 mid = R_.size(); '
        alloc = lambda i: 'u64 q%d = (u64)std::malloc(%s); %s ' % (i, o.size(), ol(1, 'q%d' % i))
        if shared:
            spec = st + accs('0', 'mid', 'p') + accs('mid', L, 'p')
        elif one:
            spec = st + alloc(0) + accs('0', 'mid', 'q0') + 'if (q0 == 0) { q0 = (u64)std::malloc(%s); %s } ' % (o.size(), ol(1, 'q0')) + accs('mid', L, 'q0') + ol(3, 'p, q0') + 'std::free((void *)q0);'
        else:
            spec = st + alloc(0) + accs('0', 'mid', 'q0') + alloc(1) + accs('mid', L, 'q1') + ol(3, 'p, q0') + ol(3, 'p, q1') + 'std::free((void *)q1); std::free((void *)q0);'
        res.append(Eq('red%s_%s_%s' % ('1' if one else '', name, on), ps + ['p'], t + 'auto O_ = %s; ' % o.cpp + call, spec, pre, ret='void', what='%s into %s: %s' % (w, o.cpp, 'different subranges write different elements, no copy' if shared else 'a thread that runs two subranges has one copy of the output' if one else 'every thread has a copy of the output'), anchor=AN['tbb'] + ': tbb_reduce'))
    return res


def mk(tier):
    th = tier == 'thorough'
    I, F = Scalar('int'), Scalar('float')
    bs = bases()
    v2 = bs[1][1]
    groups = []
    one = []
    for lib, pre, flags in (('tbb', TPR, ()), ('std', SPR, ()), ('omp', OPR, ('-D_OPENMP=202011',))):
        obs = []
        vt = SizedVector(Tuple('t', I, SizedVector(I, 'x', N('n'))), 'z', N('l'))
        for name, b in bs + [('vt', vt), ('bc', Bcast(SizedVector(I, 'x', N('n')), 'y', N('m')))]:
            obs += each_obs(lib, name, b, b)
        for name, s, _ in stacks(list(dict.fromkeys(SLICES + ['blocks', 'dyn', 'merge', 'rename', 'hoist', 'fix'])), 1, bs if th else bs[1:2]):
            if natural(s):
                obs += each_obs(lib, 'v_' + name, s, dict(bs)[name.split('_')[0]])
        if lib == 'tbb':
            # splitting of ranges of planners (those of traversers: C17)
            for name, b in bs:
                obs += [to_planner(e) for e in split_obs('psp_' + name, b, b) + sub_obs('psb_' + name, b, b)]
            for name, s, _ in stacks(['slice', 'step', 'reverse', 'blocks', 'hoist', 'rename'], 1, bs[1:2]):
                if natural(s):
                    obs += [to_planner(e) for e in split_obs('psp_' + name, s, v2) + sub_obs('psb_' + name, s, v2)]
            M = SizedVector(SizedVector(I, 'x', N('n')), 'y', N('m'))
            ox, oy, ov = SizedVector(F, 'x', N('n')), SizedVector(F, 'y', N('m')), SizedVector(I, 'v', N('l'))
            oxy = SizedVector(SizedVector(F, 'y', N('m')), 'x', N('n'))
            # shared only where the elements written by different subranges differ
            table = [('id', M, 'y'), ('hoist', Hoist(M, 'x'), 'x'), ('slice', Slice(M, 'y', N('c'), N('k')), 'y'), ('shift', Shift(M, 'y', N('c')), 'y'), ('rev', Reverse(M, 'y'), 'y'), ('step', Step(M, 'y', N('c'), N('k')), 'y'),
                     ('swap', Rename(M, 'x', 'y', 'y', 'x'), None), ('ren', Rename(M, 'y', 'v'), None), ('mergex', MergeBlocks(M, 'y', 'x', 'x'), None), ('mergey', MergeBlocks(M, 'y', 'x', 'y'), None), ('mergev', MergeBlocks(M, 'y', 'x', 'v'), None)]
            for nm, s, own in table:
                outs = []
                for on, o in (('x', ox), ('y', oy), ('v', ov), ('xy', oxy)):
                    outs.append((on, o, own is not None and own in o.dimnames()))
                obs += reduce_obs(nm, s, M, outs)
            # outputs with several branches: shared only if every branch has the dimension
            tt = lambda e0, e1: Tuple('t', e0, e1)
            touts = [('txy', tt(ox, oy), False), ('tyx', tt(oy, ox), False), ('tys', tt(oy, F), False), ('tsy', tt(F, oy), False), ('tyy', tt(oy, SizedVector(I, 'y', N('m'))), True), ('yt', SizedVector(tt(F, I), 'y', N('m')), True),
                     ('xt', SizedVector(tt(F, I), 'x', N('n')), False), ('txyy', tt(oxy, oy), True), ('sc', F, False)]
            obs += reduce_obs('tup', M, M, [x for x in touts if x[0] != 'sc'])
            one += reduce_obs('id', M, M, [('x', ox, False), ('y', oy, True), ('txy', tt(ox, oy), False)], True)
            one += reduce_obs('slice', Slice(M, 'y', N('c'), N('k')), M, [('x', ox, False), ('y', oy, True)], True)
            one += reduce_obs('swap', Rename(M, 'x', 'y', 'y', 'x'), M, [('x', ox, False), ('y', oy, False)], True)
            # the output ignores the index although it has a dimension of that name
            obs += reduce_obs('bcast', M, M, [('bc', Bcast(ox, 'y', N('m')), False)])
            # the bag version
            for on, o, shared in (('x', ox, False), ('y', oy, True)):
                od = on
                call = "auto T_ = noarr::traverser(%s); auto O_ = noarr::make_bag(%s, (char *)p); noarr::tbb_reduce(T_, [](auto st, auto &g) { mark(1); sink((u64)&g[st]); }, [](auto st, auto &g) { mark(2); sink((u64)&g[st]); }, [](auto st, auto &g, const auto &h) { mark(3); sink2((u64)&g[st], (u64)&h[st]); }, O_);" % (M.cpp, o.cpp)
                acc = lambda lo, hi, q: 'for (u64 jt = 0, et = (%s) - (%s); jt < et; jt++) { for (u64 jx = 0; jx < n; jx++) { mark(2); sink(%s + 4*%s); } }' % (hi, lo, q, 'jx' if on == 'x' else '(%s + jt)' % lo)
                ol = lambda m, f: 'for (u64 j = 0; j < %s; j++) { mark(%d); %s; }' % ('n' if on == 'x' else 'm', m, f)
                st = "auto T_ = noarr::traverser(%s); auto R_ = T_.range(); decltype(R_) Q_(R_, tbb::split()); u64 mid = R_.size(); " % M.cpp
                if shared:
                    spec = st + acc('0', 'mid', 'p') + acc('mid', 'm', 'p')
                else:
                    part = lambda i, lo, hi: 'u64 q%d = (u64)std::malloc(4*n); %s %s' % (i, ol(1, 'sink(q%d + 4*j)' % i), acc(lo, hi, 'q%d' % i))
                    spec = st + part(0, '0', 'mid') + part(1, 'mid', 'm') + ol(3, 'sink2(p + 4*j, q0 + 4*j)') + ol(3, 'sink2(p + 4*j, q1 + 4*j)') + 'std::free((void *)q1); std::free((void *)q0);'
                obs.append(Eq('redbag_' + on, ['n', 'm', 'p'], call, spec, ret='void', what='tbb_reduce into a bag over ' + on, anchor=AN['tbb'] + ': tbb_reduce'))
        groups.append(Group(pre, obs, flags=flags, batch=16))
    groups.append(Group(TPR, one, flags=('-DTBB_MODEL_ONE_THREAD',), batch=16))
    # the OpenMP loops are accepted by the OpenMP front end
    obs = []
    for nm, code in (('fe', "noarr::omp_for_each(T_, [](auto) {});"), ('fs', "noarr::omp_for_sections(T_, [](auto) {});"), ('pl', "noarr::planner(noarr::make_union(B_)).for_each([](auto) {}) | noarr::planner_omp_execute();")):
        obs.append(Wit('omp_' + nm, "inline void f(std::size_t n, std::size_t m) { auto B_ = noarr::scalar<int>() ^ noarr::vector<'x'>(n) ^ noarr::vector<'y'>(m); auto T_ = noarr::traverser(B_); %s }" % code, 'accepted with OpenMP enabled: ' + code, AN['omp']))
    groups.append(Group(OPR, obs, flags=('-fopenmp',)))
    return groups
