"""Planners: endings, sections and orders, executed, perform the nested loops they describe; their iterators and ranges too."""
import copy
import itertools
import re
from ..core import Eq, Wit, Neg, Group
from ..model import *
from ..gen import *
from .layout import PRE, H, stacks, bases, SLICES, BLOCKS, tuple_views
from .trav import TPRE, trav_ob, loops, order_of, to_base, leaf_code, sink_call, natural, chain
from .iter import sub_obs, SUB, leaf_of, it_obs, range_dim_obs, split_obs

A = H + 'extra/planner.hpp'
AI = H + 'interop/planner_iter.hpp'
PPRE = '#include <tbb/tbb.h>\n' + TPRE + '#include <noarr/structures/extra/planner.hpp>\n#include <noarr/structures/interop/tbb.hpp>\n#include <noarr/structures/interop/planner_iter.hpp>\n#include <iterator>\n' + SUB

PL = 'noarr::planner(noarr::make_union(B_))'
ENDS = {
    'dot': lambda o, leaf: '%s%s.for_each([](auto s) { %s }).execute();' % (PL, '.order(%s)' % o if o else '', leaf),
    'hat': lambda o, leaf: '%s%s ^ noarr::for_each([](auto s) { %s }) | noarr::planner_execute();' % (PL, ' ^ ' + o if o else '', leaf),
    'late': lambda o, leaf: '%s.for_each([](auto s) { %s })%s();' % (PL, leaf, '.order(%s)' % o if o else ''),
    'latehat': lambda o, leaf: '(%s ^ noarr::for_each([](auto s) { %s })%s) | noarr::planner_execute();' % (PL, leaf, ' ^ ' + o if o else ''),
}


def each_ob(pid, s, b, form):
    o = order_of(s, b)
    return Eq(pid, s.params, 'auto B_ = %s; ' % b.cpp + ENDS[form](o, leaf_of(s, b)), loops(s, b), s.pre, ret='void', what='planner of %s in order %s (%s)' % (b.cpp, o or '(none)', form), anchor=A)


def elem_ob(pid, s, b, form, late=False):
    """for_each_elem: references to the elements of the bags"""
    o = order_of(s, b)
    f = {'e': '[](auto &x) { sink((u64)&x); }', 'se': '[](auto s, auto &x) { sink((u64)&x); }'}[form]
    body = lambda idx: 'sink(u64(4096) + %s);' % b.off(to_base(s, b, idx))
    oo = '.order(%s)' % o if o else ''
    return Eq(pid, s.params, 'auto B_ = %s; auto g = noarr::make_bag(B_, (char *)u64(4096)); noarr::planner(g)%s;' % (
        b.cpp, ('.for_each_elem(%s)%s.execute()' if late else '%s.for_each_elem(%s).execute()') % ((f, oo) if late else (oo, f))), loops(s, b, body), s.pre, ret='void',
        what='for_each_elem of a bag of %s in order %s' % (b.cpp, o or '(none)'), anchor=A + ': planner_ending_elem_t')


def determined(s, b, have):
    """base dimensions determined by the dims `have` of s"""
    out = set()
    alld = s.dimnames()
    r = to_base(s, b, {x: ('v' + x) for x in alld})
    for k, v in r.items():
        need = {x for x in alld if re.search(r'\bv%s\b' % x, v)}
        if need <= set(have):
            out.add(k)
    return out


def nest(s, b, secs, order, leafspec, leafend=True):
    """loops of s in `order`; secs: list of (dims, open, close)"""
    def go(ds, idx, secs):
        pre, post = '', ''
        det = determined(s, b, list(idx))
        rest = []
        act = [x for x in secs if set(x[0]) <= det]
        for x in act:
            pre += x[1]
            post = x[2] + post
        rest = [x for x in secs if x not in act]
        if not ds:
            return pre + leafspec(idx) + post
        d = ds[0]
        v = 'j%s_' % d
        return pre + 'for (u64 %s = 0, e%s = %s; %s < e%s; %s++) { %s }' % (v, v, s.length(d, idx), v, v, v, go(ds[1:], dict(idx, **{d: v}), rest)) + post
    return go(list(order), {}, secs)


def acts(s, b, order, dims):
    """depth at which a section over dims activates"""
    for i in range(len(order) + 1):
        if set(dims) <= determined(s, b, order[:i]):
            return i
    return None


def known(s, order):
    idx = {}
    for d in order:
        if s.length(d, idx) is None:
            return False
        idx[d] = 'q'
    return True


def section_obs(name, s, b, seclists, full=True):
    out = []
    order = s.dimnames()
    if not known(s, order):
        return out
    o = order_of(s, b)
    leaf = leaf_of(s, b)
    ls = lambda idx: loops(s, b, None, [], idx)
    for secs in seclists:
        dep = [acts(s, b, order, x) for x in secs]
        if None in dep or len(set(dep)) != len(dep) or len(order) in dep and False:
            continue
        if any(x == len(order) for x in dep):
            continue    # would activate together with the innermost ending
        m = [(tuple(x), 'mark(%d); ' % (10 + 2 * i), ' mark(%d);' % (11 + 2 * i)) for i, x in enumerate(secs)]
        spec = nest(s, b, m, order, ls)
        nm = '%s_%s' % (name, '_'.join(''.join(x) for x in secs))
        sc = lambda i, x, how: {'dot': '.template for_sections<%s>([](auto in) { mark(%d); in(); mark(%d); })', 'hat': ' ^ noarr::for_sections<%s>([](auto in) { mark(%d); in | noarr::planner_execute(); mark(%d); })'}[how] % (dimlist(x), 10 + 2 * i, 11 + 2 * i)
        hat = '%s ^ noarr::for_each([](auto s) { %s })%s%s' % (PL, leaf, ''.join(sc(i, x, 'hat') for i, x in enumerate(secs)), ' ^ ' + o if o else '')
        dot = '%s%s.for_each([](auto s) { %s })%s.execute()' % (PL, '.order(%s)' % o if o else '', leaf, ''.join(sc(i, x, 'dot') for i, x in enumerate(secs)))
        for k, c in (('h', '(%s) | noarr::planner_execute()' % hat), ('d', dot))[:2 if full else 1]:
            out.append(Eq(nm + k, s.params, 'auto B_ = %s; %s;' % (b.cpp, c), spec, s.pre, ret='void', what='sections %s of the planner of %s in order %s' % (secs, b.cpp, o or '(none)'), anchor=A))
        if len(secs) == 1 and full:
            # the ending added inside the section; the state of the section
            x = secs[0]
            det = [d for d in b.dimnames() if d in determined(s, b, order[:dep[0]])]
            c = '%s%s.template for_sections<%s>([](auto in) { mark(10); in.for_each([](auto s) { %s }).execute(); mark(11); }).execute()' % (PL, '.order(%s)' % o if o else '', dimlist(x), leaf)
            out.append(Eq(nm + 'i', s.params, 'auto B_ = %s; %s;' % (b.cpp, c), spec, s.pre, ret='void', what='for_each inside a section over %s of the planner of %s in order %s' % (x, b.cpp, o or '(none)'), anchor=A))
            c = '%s%s.template for_sections<%s>([](auto in) { auto s = in.state(); %s }).execute()' % (PL, '.order(%s)' % o if o else '', dimlist(x), leaf_code(b, det))
            sp = nest2(s, b, order[:dep[0]], lambda idx: sink_call([to_base(s, b, idx)[d] for d in det]))
            out.append(Eq(nm + 's', s.params, 'auto B_ = %s; %s;' % (b.cpp, c), sp, s.pre, ret='void', what='state in a section over %s of the planner of %s in order %s' % (x, b.cpp, o or '(none)'), anchor=A))
    return out


def nest2(s, b, order, body):
    def go(ds, idx):
        if not ds:
            return body(idx)
        d = ds[0]
        v = 'j%s_' % d
        return 'for (u64 %s = 0, e%s = %s; %s < e%s; %s++) { %s }' % (v, v, s.length(d, idx), v, v, v, go(ds[1:], dict(idx, **{d: v})))
    return go(list(order), {})


def subsets(ds):
    return [p for r in range(1, len(ds) + 1) for p in itertools.permutations(ds, r)]


def to_planner(e):
    """the obligation about a traverser's iterators, about a planner's"""
    e = copy.copy(e)
    code = e.impl if isinstance(e, Eq) else e.body

    def conv(c):
        c = c.replace('[=]', '[]')
        c = c.replace('noarr::traverser(B_)', PL)
        c = c.replace('T_.range()', 'noarr::range(T_)').replace('T_.begin()', 'noarr::begin(T_)').replace('T_.end()', 'noarr::end(T_)')
        c = re.sub(r"T_\.template range<('.')>\(\)", r"noarr::range<\1>(T_)", c)
        c = c.replace('.as_traverser()', '.as_planner()').replace('noarr::IsTraverser<', 'noarr::IsPlanner<')
        # run what for_each plans
        out, i = '', 0
        while True:
            j = c.find('.for_each([](auto s) {', i)
            if j < 0:
                return out + c[i:]
            k, depth = j + len('.for_each'), 0
            while True:
                depth += {'(': 1, ')': -1}.get(c[k], 0)
                k += 1
                if depth == 0:
                    break
            out += c[i:k] + '.execute()'
            i = k
    if isinstance(e, Eq):
        e.impl = conv(e.impl)
        e.spec = conv(e.spec)
    elif isinstance(e, Wit):
        e.body = conv(e.body)
    e.what = e.what.replace('traverser', 'planner')
    e.anchor = AI
    return e


def mk(tier):
    th = tier == 'thorough'
    obs = []
    I, F, D = Scalar('int'), Scalar('float'), Scalar('double')
    bs = bases()
    v2, v3 = bs[1][1], bs[3][1]
    bc = Bcast(SizedVector(I, 'x', N('n')), 'y', N('m'))
    for name, b in bs + [('bc', bc)]:
        for f in ENDS:
            obs.append(each_ob('%s_%s' % (name, f), b, b, f))
        for f in ('e', 'se'):
            obs.append(elem_ob('%s_el_%s' % (name, f), b, b, f))
    vs = list(dict.fromkeys(SLICES + ['blocks', 'dyn', 'blocks_same', 'static', 'merge', 'rename', 'hoist', 'fix', 'bcast']))
    for name, s, _ in stacks(vs, 1, bs):
        b = dict(bs)[name.split('_')[0]]
        if not natural(s):
            continue
        for f in (ENDS if b is v2 or th else ['dot', 'latehat']):
            obs.append(each_ob('v_%s_%s' % (name, f), s, b, f))
        obs.append(elem_ob('v_%s_el' % name, s, b, 'e', late=b is v2))
    for name, s, v in stacks(['slice', 'step', 'reverse', 'blocks', 'dyn', 'hoist', 'rename', 'fix'], 2, bs[1:2] if not th else bs[1:]):
        if natural(s):
            obs.append(each_ob('w_%s' % name, s, dict(bs)[name.split('_')[0]], 'late'))
    # sections
    for nm, b in (('v2', v2), ('v3', v3)):
        ds = b.dimnames()
        for p in itertools.permutations(ds):
            s = Reorder(b, *p)
            sl = [[x] for x in subsets(ds)]
            sl += [[x, y] for x in subsets(ds)[:6] for y in subsets(ds)[:12] if x != y]
            if nm == 'v3':
                sl += [[(x,), (y,)] for x in ds for y in ds if x != y] + [[('x', 'y'), ('z',)], [('z', 'y'), ('y',)]]
                sl = [list(q) for q in dict.fromkeys(tuple(q) for q in sl)]
            obs += section_obs('s_%s_%s' % (nm, ''.join(p)), s, b, sl, nm == 'v2' or th or p == ('y', 'z', 'x'))
    # several sections inside one another, attached in any order
    v4 = SizedVector(v3, 'w', N('k'))
    for p in (('w', 'z', 'y', 'x'), ('y', 'w', 'x', 'z')):
        sl = [list(q) for q in itertools.permutations([(p[0],), (p[1],), (p[2],)])]
        sl += [list(q) for q in itertools.permutations([(p[0],), tuple(p[:2]), tuple(p[2::-1])])]
        obs += section_obs('s4_' + ''.join(p), Reorder(v4, *p), v4, sl, False)
    for name, s, _ in stacks(['slice', 'step', 'reverse', 'blocks', 'merge', 'rename', 'fix', 'span', 'shift', 'bcast'], 1, bs[1:2]):
        obs += section_obs('so_' + name, s, v2, [[('x',)], [('y',)], [('x',), ('y',)]])
    # for_dims: the sections are hoisted
    for nm, b in (('v2', v2), ('v3', v3)):
        ds = b.dimnames()
        for p in subsets(ds):
            if len(p) == len(ds):
                continue
            rest = [d for d in ds if d not in p]
            leaf = leaf_of(b, b)
            spec = nest2(b, b, p, lambda idx: 'mark(10); ' + loops(b, b, None, [(d, None) for d in rest], idx) + ' mark(11);')
            c = 'auto B_ = %s; (%s ^ noarr::for_each([](auto s) { %s }) ^ noarr::for_dims<%s>([](auto in) { mark(10); in(); mark(11); })) | noarr::planner_execute();' % (b.cpp, PL, leaf, dimlist(p))
            obs.append(Eq('fd_%s_%s' % (nm, ''.join(p)), b.params, c, spec, b.pre, ret='void', what='for_dims<%s> of the planner of %s' % (dimlist(p), b.cpp), anchor=A))
            c = 'auto B_ = %s; (%s ^ noarr::for_dims<%s>([](auto in) { mark(10); in ^ noarr::for_each([](auto s) { %s }) | noarr::planner_execute(); mark(11); })) | noarr::planner_execute();' % (b.cpp, PL, dimlist(p), leaf)
            obs.append(Eq('fdi_%s_%s' % (nm, ''.join(p)), b.params, c, spec, b.pre, ret='void', what='for_dims<%s> of the planner of %s, ending inside' % (dimlist(p), b.cpp), anchor=A))
    # a section over everything, alone
    for nm, b in (('v2', v2), ('v3', v3)):
        ds = b.dimnames()
        for p in itertools.permutations(ds):
            spec = nest2(b, b, ds, lambda idx: sink_call([idx[d] for d in ds]))
            obs.append(Eq('all_%s_%s' % (nm, ''.join(p)), b.params, 'auto B_ = %s; %s.template for_sections<%s>([](auto in) { auto s = in.state(); %s }).execute();' % (b.cpp, PL, dimlist(p), leaf_code(b, ds)),
                          spec, b.pre, ret='void', what='for_sections<%s> of the planner of %s' % (dimlist(p), b.cpp), anchor=A))
    # unions: several bags, every element of each at its address
    M = SizedVector(SizedVector(I, 'x', N('n')), 'y', N('m'))
    K = SizedVector(SizedVector(F, 'z', N('l')), 'x', N('n'))
    C = SizedVector(SizedVector(D, 'y', N('m')), 'z', N('l'))
    W = SizedVector(SizedVector(D, 'x', N('n')), 'w', N('k'))
    S = {'M': M, 'K': K, 'C': C, 'W': W, 'V': SizedVector(D, 'w', N('k'))}
    L = {'x': 'n', 'y': 'm', 'z': 'l', 'w': 'k'}
    for u in ('MK', 'KM', 'MKC', 'CMK', 'KCM', 'MC', 'MMKC', 'MKCW', 'WVCM', 'KVMCW'):
        order = S[u[0]].dimnames()
        for c in u[1:]:
            order = [d for d in S[c].dimnames() if d not in order] + order
        ps = sorted({p for c in u for p in S[c].params})
        bags = ', '.join('noarr::make_bag(%s, (char *)u64(%d))' % (S[c].cpp, 4096 * (i + 1)) for i, c in enumerate(u))
        idx = {d: 'j' + d for d in order}
        sk = sink_call(['(%d + %s)' % (4096 * (i + 1), S[c].off(idx)) for i, c in enumerate(u)])
        args = ['e%d' % i for i in range(len(u))]
        for perm in (itertools.permutations(order) if len(order) < 4 else [order, order[::-1], order[1:] + order[:1], order[2:] + order[:2]]):
            spec = sk
            for d in reversed(perm):
                spec = 'for (u64 j%s = 0; j%s < %s; j%s++) { %s }' % (d, d, L[d], d, spec)
            o = ' ^ noarr::reorder<%s>()' % dimlist(perm) if list(perm) != order else ''
            obs.append(Eq('u_%s_%s' % (u, ''.join(perm)), ps, '(noarr::planner(%s)%s ^ noarr::for_each_elem([](%s) { %s })) | noarr::planner_execute();' % (
                bags, o, ', '.join('auto &' + a for a in args), sink_call(['(u64)&' + a for a in args])), spec, ret='void', what='for_each_elem of bags %s ordered %s' % (u, perm), anchor=A + ', extra/traverser.hpp'))
            d0 = perm[0]
            sp = sk
            for d in reversed(perm[1:]):
                sp = 'for (u64 j%s = 0; j%s < %s; j%s++) { %s }' % (d, d, L[d], d, sp)
            sp = 'for (u64 j%s = 0; j%s < %s; j%s++) { sink(j%s); %s }' % (d0, d0, L[d0], d0, d0, sp)
            obs.append(Eq('us_%s_%s' % (u, ''.join(perm)), ps, "(noarr::planner(%s) ^ noarr::for_each_elem([](auto s, %s) { %s }) ^ noarr::for_sections<'%s'>([](auto in) { sink(u64(noarr::get_index<'%s'>(in.state()))); in(); })%s) | noarr::planner_execute();" % (
                bags, ', '.join('auto &' + a for a in args), sink_call(['(u64)&' + a for a in args]), d0, d0, o), sp, ret='void', what='sections of the planner of bags %s ordered %s' % (u, perm), anchor=A))
    # iterators and ranges
    for name, b in bs:
        obs += [to_planner(e) for e in it_obs('i_' + name, b, b, b is v2 or th)]
        if b is v2 or th:
            obs += [to_planner(e) for e in range_dim_obs('i_' + name, b, b)]
            obs += [to_planner(e) for e in sub_obs('ib_' + name, b, b)]
    for name, s, _ in stacks(['slice', 'step', 'reverse', 'blocks', 'dyn', 'hoist', 'rename', 'fix', 'merge'], 1, bs[1:2]):
        if natural(s):
            obs += [to_planner(e) for e in it_obs('iv_' + name, s, v2, th)]
            obs += [to_planner(e) for e in range_dim_obs('iv_' + name, s, v2)]
            obs += [to_planner(e) for e in sub_obs('ibv_' + name, s, v2, th)]
    for v in ['slice', 'step', 'reverse', 'hoist', 'blocks']:
        for d in 'xy':
            s = apply_view(v, v2, d)
            if s is not None and natural(s):
                obs.append(Eq('ro_%s%s' % (v, d), s.params, 'auto B_ = %s; noarr::range(%s).order(%s).for_each([](auto s) {%s}).execute();' % (v2.cpp, PL, order_of(s, v2), leaf_of(s, v2)), loops(s, v2), s.pre, ret='void', what='order on a range of a planner: ' + s.cpp, anchor=AI))
    # elements of iterators keep the endings
    obs.append(Eq('it_end', ['n', 'm'], 'auto B_ = %s; for (auto p : %s.for_each([](auto s) { %s })) { mark(1); p.execute(); }' % (v2.cpp, PL, leaf_code(v2, ['y', 'x'])), 'for (u64 i = 0; i < m; i++) { mark(1); for (u64 j = 0; j < n; j++) sink2(i, j); }', ret='void', what='iterating a planner with an ending', anchor=AI))
    obs.append(Eq('rg_end', ['n', 'm'], 'auto B_ = %s; noarr::range(%s.for_each([](auto s) { %s })).as_planner().execute();' % (v2.cpp, PL, leaf_code(v2, ['y', 'x'])), 'for (u64 i = 0; i < m; i++) { for (u64 j = 0; j < n; j++) sink2(i, j); }', ret='void', what='range of a planner with an ending', anchor=AI))
    # a planner stands for its state
    obs.append(Eq('pst', ['n', 'm'], "auto B_ = %s; %s.template for_sections<'y'>([](auto in) { sink(u64(noarr::get_index<'y'>(in))); }).execute();" % (v2.cpp, PL), 'for (u64 i = 0; i < m; i++) sink(i);', ret='void', what='a planner used as a state', anchor=A + ': to_state'))
    obs.append(Neg('end2', 'inline void f() { (void)(noarr::planner(noarr::make_union(noarr::scalar<int>() ^ noarr::array<\'x\', 4>())).for_each([](auto) {})); }',
                   'inline void f() { (void)(noarr::planner(noarr::make_union(noarr::scalar<int>() ^ noarr::array<\'x\', 4>())).for_each([](auto) {}).for_each([](auto) {})); }', 'a planner has one innermost ending', A))
    obs.append(Neg('noend', 'inline void f() { noarr::planner(noarr::make_union(noarr::scalar<int>() ^ noarr::array<\'x\', 4>())).for_each([](auto) {}).execute(); }',
                   'inline void f() { noarr::planner(noarr::make_union(noarr::scalar<int>() ^ noarr::array<\'x\', 4>())).execute(); }', 'a planner without an ending cannot be executed', A))
    # tuples: alternatives one after another
    vx, vy = SizedVector(I, 'x', N('n')), SizedVector(F, 'y', N('m'))
    vxy = SizedVector(vx, 'y', N('m'))
    for name, b in [('t2', Tuple('t', I, F)), ('t3', Tuple('t', vx, F, vy)), ('t4', Tuple('t', vxy, vx, I, vy)), ('vt', SizedVector(Tuple('t', I, vx), 'z', N('l'))), ('tt', Tuple('t', Tuple('s', I, vx), F, Tuple('s', vy, I)))]:
        for f in ENDS:
            obs.append(each_ob('%s_%s' % (name, f), b, b, f))
        obs.append(elem_ob('%s_el' % name, b, b, 'e'))
    return [Group(PPRE, obs, batch=16)]
