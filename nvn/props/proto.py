"""Composition of proto-structures: however a chain of ^ is grouped, the result is the structure built step by step."""
import copy
import random
from ..core import Eq, Wit, Group
from ..model import *
from ..gen import *
from .layout import PRE, H, SLICES, BLOCKS, OTHER, stacks, sig_obs, base_cases

A = H + 'base/structs_common.hpp: operator^, compose_proto, pack, to_each, neutral_proto, make_proto'


def split(e):
    out, depth, cur, i = [], 0, '', 0
    while i < len(e):
        c = e[i]
        if c == "'":
            cur += e[i:i + 3]
            i += 3
            continue
        if c in '([{':
            depth += 1
        elif c in ')]}':
            depth -= 1
        if c == '^' and depth == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += c
        i += 1
    return out + [cur.strip()]


NE = 'noarr::neutral_proto{}'


def g_right(p):
    e = p[-1]
    for x in reversed(p[1:-1]):
        e = '%s ^ (%s)' % (x, e)
    return '%s ^ (%s)' % (p[0], e)


def g_left(p):
    return '%s ^ (%s)' % (p[0], ' ^ '.join(p[1:]))


def g_mid(p):
    k = max(1, len(p) // 2)
    return '%s ^ (%s)%s' % (p[0], ' ^ '.join(p[1:k + 1]), ' ^ (%s)' % ' ^ '.join(p[k + 1:]) if p[k + 1:] else '')


def g_neutral(p):
    return '%s ^ %s ^ (%s)' % (p[0], NE, ' ^ '.join('(%s ^ %s)' % ((x, NE) if i % 2 else (NE, x)) for i, x in enumerate(p[1:])))


def g_neutral2(p):
    return '%s ^ (%s ^ %s) ^ %s' % (p[0], NE, ' ^ '.join(p[1:]), NE)


def g_make(p):
    return '%s ^ noarr::make_proto([=](auto s_) { return s_ ^ %s; })' % (p[0], ' ^ '.join(p[1:]))


def g_make2(p):
    return '%s ^ %s' % (p[0], ' ^ '.join('noarr::make_proto([=](auto s_) { return s_ ^ %s; })' % x for x in p[1:]))


def g_pack1(p):
    return 'noarr::pack(%s) ^ %s' % (p[0], ' ^ '.join(p[1:]))


def g_pack2(p):
    return 'noarr::pack(%s) ^ (%s)' % (p[0], ' ^ '.join(p[1:]))


def g_var(p):
    return '[=] { auto P_ = %s; auto Q_ = P_; const auto &R_ = Q_; auto B_ = %s; return B_ ^ R_; }()' % (' ^ '.join(p[1:]), p[0])


GROUPINGS = dict(right=g_right, left=g_left, mid=g_mid, neutral=g_neutral, neutral2=g_neutral2, make=g_make, make2=g_make2, pack1=g_pack1, pack2=g_pack2, var=g_var)


def recast(s, cpp):
    t = copy.copy(s)
    t.cpp = '(%s)' % cpp
    return t


def mk(tier):
    th = tier == 'thorough'
    obs = []
    V = SLICES + BLOCKS + OTHER
    cs = [(n, s) for n, s in bases()] + [(n, s) for n, s, _ in stacks(V, 1, bases()[:2])]
    for name, s in cs:
        p = split(s.cpp)
        for g, f in GROUPINGS.items():
            if 'symmetric' in s.cpp and g == 'make2':
                continue
            obs += all_obs('%s_%s' % (name, g), recast(s, f(p)), f(p), A)
    deep = stacks(V, 2, bases()[:2]) + stacks(V, 3, bases()[:1])
    random.Random(5).shuffle(deep)
    gs = list(GROUPINGS)
    for k, (name, s, _) in enumerate(deep[:1500 if th else 260]):
        p = split(s.cpp)
        g = gs[k % len(gs)]
        obs += all_obs('d%d_%s' % (k, g), recast(s, GROUPINGS[g](p)), GROUPINGS[g](p), A)
        if k % 3 == 0:
            obs += sig_obs('dsig%d' % k, recast(s, GROUPINGS[g](p)))
    # packs
    I, F = Scalar('int'), Scalar('float')
    vx = SizedVector(I, 'x', N('n'))
    vxy = SizedVector(vx, 'y', N('m'))
    vy = SizedVector(F, 'y', N('m'))
    wx = SizedVector(F, 'x', N('q'))
    T = lambda *ss: Tuple('t', *ss)
    P1 = lambda s: split(s.cpp)[-1]
    ones = [('shift', lambda s: Shift(s, 'x', N('h'))), ('rev', lambda s: Reverse(s, 'x')), ('step', lambda s: Step(s, 'x', N('b'), N('t0'))),
            ('ren', lambda s: Rename(s, 'x', 'A')), ('vec', lambda s: SizedVector(s, 'z', N('l'))), ('fix', lambda s: Fix(s, 'x', N('f'))),
            ('slice', lambda s: Slice(s, 'x', N('b'), N('k'))), ('blk', lambda s: IntoBlocks(s, 'x', 'A', 'B', N('k')))]
    for vn, v in ones:
        for bn, parts in (('a', (vx, wx)), ('b', (vxy, wx, vx)), ('c', (vx,)), ('d', (vxy, vx))):
            s = T(*[v(p) for p in parts])
            ps = split(v(vx).cpp)[len(split(vx.cpp)):]
            vt = ' ^ '.join(ps)
            pk = 'noarr::pack(%s)' % ', '.join(p.cpp for p in parts)
            for fn, e in (('te', '%s ^ noarr::to_each(%s) ^ noarr::tuple<\'t\'>()' % (pk, vt)),
                          ('te2', '%s ^ %s ^ noarr::tuple<\'t\'>()' % (pk, ' ^ '.join('noarr::to_each(%s)' % x for x in ps))),
                          ('ten', '%s ^ noarr::to_each(%s) ^ noarr::to_each(%s) ^ noarr::tuple<\'t\'>()' % (pk, NE, vt)),
                          ('dir', 'noarr::pack(%s) ^ noarr::tuple<\'t\'>()' % ', '.join('%s ^ %s' % (p.cpp, vt) for p in parts))):
                obs += all_obs('pk_%s_%s_%s' % (vn, bn, fn), recast(s, e), e, A)
    # one structure through several proto-structures; a tuple of proto-structures
    prs = [("noarr::vector<'x'>(n)", lambda s: SizedVector(s, 'x', N('n'))), ("noarr::vector<'y'>(m)", lambda s: SizedVector(s, 'y', N('m'))),
           ("noarr::vector<'x'>(n) ^ noarr::vector<'y'>(m)", lambda s: SizedVector(SizedVector(s, 'x', N('n')), 'y', N('m'))), (NE, lambda s: s),
           ("noarr::array<'z', 3>()", lambda s: SizedVector(s, 'z', LIT(3), 3))]
    for i, sel in enumerate([(0, 1), (1, 0), (0, 3), (3, 0), (2, 1), (1, 2, 0), (3, 3), (4, 0), (0, 4, 2), (2,), (0, 0)]):
        s = T(*[prs[j][1](I) for j in sel])
        pt = ', '.join(prs[j][0] for j in sel)
        for fn, e in (('fan', "noarr::scalar<int>() ^ noarr::pack(%s) ^ noarr::tuple<'t'>()" % pt),
                      ('proto', "noarr::scalar<int>() ^ (noarr::pack(%s) ^ noarr::tuple<'t'>())" % pt),
                      ('protov', "[=] { auto P_ = noarr::pack(%s) ^ noarr::tuple<'t'>(); return noarr::scalar<int>() ^ P_; }()" % pt),
                      ('neu', "noarr::scalar<int>() ^ (noarr::pack(%s) ^ noarr::tuple<'t'>() ^ %s)" % (pt, NE))):
            obs += all_obs('fan%d_%s' % (i, fn), recast(s, e), e, A)
        vz = SizedVector(s, 'w', N('l'))
        for fn, e in (('a', "noarr::scalar<int>() ^ (noarr::pack(%s) ^ noarr::tuple<'t'>() ^ noarr::vector<'w'>(l))" % pt),
                      ('b', "noarr::scalar<int>() ^ (noarr::pack(%s) ^ (noarr::tuple<'t'>() ^ noarr::vector<'w'>(l)))" % pt),
                      ('c', "noarr::pack(%s) ^ (noarr::tuple<'t'>() ^ noarr::vector<'w'>(l))" % ', '.join(prs[j][1](I).cpp for j in sel))):
            obs += all_obs('fanw%d_%s' % (i, fn), recast(vz, e), e, A)
    # layout preservation of a composition: exactly when every part preserves it
    pres = [("noarr::shift<'x'>(n)", 1), ("noarr::rename<'x', 'y'>()", 1), ("noarr::hoist<'x'>()", 1), ("noarr::into_blocks<'x', 'y'>(n)", 1), (NE, 1),
            ("noarr::vector<'x'>(n)", 0), ("noarr::bcast<'x'>(n)", 1), ("noarr::tuple<'x'>()", 0), ("noarr::set_length<'x'>(n)", 1), ("noarr::array<'x', 3>()", 0),
            ("noarr::fix<'x'>(n)", 1), ("noarr::slice<'x'>(n, n)", 1), ("noarr::merge_blocks<'x', 'y'>()", 1), ("noarr::reverse<'x'>()", 1)]
    for i, (a, pa) in enumerate(pres):
        obs.append(Wit('plo%d' % i, 'inline void f(u64 n) { using T_ = decltype(%s); static_assert(T_::proto_preserves_layout == %s); }' % (a, 'true' if pa else 'false'), 'does %s preserve the layout' % a, A))
        for j, (b, pb) in enumerate(pres):
            obs.append(Wit('pl%d_%d' % (i, j), 'inline void f(u64 n) { using T_ = decltype((%s) ^ (%s)); static_assert(T_::proto_preserves_layout == %s); using U_ = decltype((%s) ^ (%s) ^ (%s)); static_assert(U_::proto_preserves_layout == %s); }' % (
                a, b, 'true' if pa and pb else 'false', a, b, NE, 'true' if pa and pb else 'false'), 'layout preservation of %s ^ %s' % (a, b), A))
    # ... of longer compositions, however they are grouped
    rng = random.Random(11)
    chains = [[rng.choice(pres) for _ in range(rng.choice((3, 3, 4, 5, 6)))] for _ in range(400 if th else 60)]
    good = [x for x in pres if x[1]]
    for k in (3, 4, 5, 6):
        for bad in pres:
            if bad[1]:
                continue
            for pos in range(k):
                c = [good[(pos + i * 3 + k) % len(good)] for i in range(k)]
                c[pos] = bad
                chains.append(c)
        chains += [[good[(i * 5 + j) % len(good)] for i in range(k)] for j in range(4)]
    for i, c in enumerate(chains):
        want = 'true' if all(x[1] for x in c) else 'false'
        e = ['(%s)' % x[0] for x in c]
        r = e[-1]
        for x in reversed(e[:-1]):
            r = '(%s ^ %s)' % (x, r)
        h = len(e) // 2
        gr = [' ^ '.join(e), r, '(%s) ^ (%s)' % (' ^ '.join(e[:h]), ' ^ '.join(e[h:])), '(%s ^ (%s)) ^ %s' % (e[0], ' ^ '.join(e[1:-1]), e[-1])]
        obs.append(Wit('plc%d' % i, 'inline void f(u64 n) { %s }' % ' '.join('using T%d_ = decltype(%s); static_assert(T%d_::proto_preserves_layout == %s);' % (j, g, j, want) for j, g in enumerate(gr)),
                       'layout preservation of ' + ' ^ '.join(e), A))
    # ... of a pack of proto-structures followed by another one
    for i, c in enumerate(chains):
        want = 'true' if all(x[1] for x in c) else 'false'
        pk = 'noarr::pack(%s)' % ', '.join(x[0] for x in c[:-1])
        o = c[-1][0]
        gr = ['%s ^ %s' % (pk, o), '%s ^ (%s ^ %s)' % (pk, NE, o), '%s ^ %s ^ %s' % (pk, o, NE), '%s ^ noarr::to_each(%s)' % (pk, o)]
        obs.append(Wit('plp%d' % i, 'inline void f(u64 n) { %s }' % ' '.join('using T%d_ = decltype(%s); static_assert(T%d_::proto_preserves_layout == %s);' % (j, g, j, want) for j, g in enumerate(gr)),
                       'layout preservation of %s ^ %s' % (pk, o), A))
    return [Group(PRE, obs, batch=40)]
