"""merge_zcurve: the merged index walks the Z-order curve restricted to the valid indices."""
from ..core import Eq, Wit, Group
from ..gen import dimlist
from .layout import PRE, H

ZPRE = PRE + '#include <noarr/structures/structs/zcurve.hpp>\n'
A = H + 'structs/zcurve.hpp: merge_zcurve_t::impl::sub_state, helpers::zc_general, zc_special'


def steps(dims, S, G, lens):
    """Plain formulation.  A curve position is decoded from the coarsest level down; at each level the box is halved in
    the dimensions in order, the first half holding (half-width) * (product of the other, possibly clipped, extents)
    positions.  The lowest S levels are full cubes: plain bit interleaving, first dimension most significant."""
    n = len(dims)
    o = ['u64 z_ = iz >> %d; u64 sp_ = iz & %sULL;' % (S * n, (1 << (S * n)) - 1)]
    for d, L in zip(dims, lens):
        o.append('u64 s%s = (%s) >> %d, p%s = 0;' % (d, L, S, d))
    for lv in reversed(range(G - S)):
        h = 1 << lv
        for i, d in enumerate(dims):
            f = []
            for j, e in enumerate(dims):
                if j != i:
                    t = h * (2 if j > i else 1)
                    f.append('((s%s & -u64(%d)) == p%s ? ((s%s - 1) & u64(%d)) + 1 : u64(%d))' % (e, t, e, e, t - 1, t))
            o.append('{ u64 v_ = (%s) << %d; if (p%s + u64(%d) < s%s && z_ >= v_) { z_ -= v_; p%s += u64(%d); } }' % (' * '.join(f) or 'u64(1)', lv, d, h, d, d, h))
    for i, d in enumerate(dims):
        bits = ' | '.join('((sp_ >> %d & 1) << %d)' % (k * n + n - 1 - i, k) for k in range(S)) or '0'
        o.append('u64 r%s = (p%s << %d) + (%s);' % (d, d, S, bits))
    return ' '.join(o)


def struct(order, mem, S, G, ty='char'):
    """mem: dims innermost first; order: dims as given to merge_zcurve"""
    s = 'noarr::scalar<%s>()' % ty
    for d in mem:
        s += " ^ noarr::vector<'%s'>(l%s)" % (d, d)
    return s, s + ' ^ noarr::merge_zcurve<%s, \'z\'>::maxlen_alignment<%d, %d>()' % (dimlist(order), 1 << G, 1 << S)


def reference_order(sizes, G):
    """the Z-order curve (first dimension most significant at every level) restricted to the valid indices"""
    import itertools

    def key(t):
        return tuple(t[d] >> l & 1 for l in reversed(range(G)) for d in range(len(t)))
    return sorted(itertools.product(*map(range, sizes)), key=key)


def decode(z, sizes, S, G):
    """the same formulation in plain integers (used for the compile-time witnesses of the topmost levels)"""
    n = len(sizes)
    sp, z = z & ((1 << S * n) - 1), z >> S * n
    s = [x >> S for x in sizes]
    p = [0] * n
    for lv in reversed(range(G - S)):
        h = 1 << lv
        for i in range(n):
            v = h
            for j in range(n):
                if j != i:
                    t = h * (2 if j > i else 1)
                    v *= ((s[j] - 1) & (t - 1)) + 1 if s[j] // t * t == p[j] else t
            if z >= v:
                z -= v
                p[i] += h
    return tuple((p[i] << S) + sum((sp >> (k * n + n - 1 - i) & 1) << k for k in range(S)) for i in range(n))


def high():
    """levels beyond the reach of the normal form (32 and more): static_asserts folded by the compiler"""
    import random
    r = random.Random(7)
    out = []
    for k, (dims, sizes, S, G) in enumerate([('x', ((1 << 40) + 3,), 0, 63), ('x', (1 << 62,), 0, 63), ('xy', ((1 << 33) + 1, 5), 0, 63), ('xy', (3, (1 << 34) + 7), 0, 40),
                                             ('xy', ((1 << 31) + 12, (1 << 30) + 4), 2, 35), ('xyw', ((1 << 20) + 1, (1 << 20) - 1, 1 << 20), 0, 63), ('xy', (13, 7), 0, 63),
                                             ('xyw', (5, 6, 7), 0, 63), ('xy', (24, 40), 3, 63)]):
        n = 1
        for x in sizes:
            n *= x
        body = "constexpr auto S_ = noarr::scalar<char>()%s ^ noarr::merge_zcurve<%s, 'z'>::maxlen_alignment<(u64(1) << %d), %d>();" % (
            ''.join(" ^ noarr::vector<'%s'>(u64(%d))" % dx for dx in zip(dims, sizes)), dimlist(dims), G, 1 << S)
        for z in [0, 1, n - 1, n // 2] + [r.randrange(n) for _ in range(6)]:
            t = decode(z, sizes, S, G)
            for d, v in zip(dims, t):
                body += " static_assert(S_.sub_state(noarr::idx<'z'>(u64(%d))).template get<noarr::index_in<'%s'>>() == u64(%d), \"index on the curve\");" % (z, d, v)
        out.append(Wit('zhigh%d' % k, body, 'positions of a curve over sizes %s with MaxLen 2^%d' % (sizes, G), A))
    return out


def mk(tier):
    obs = high()
    cfg = []
    for S, G in ((0, 0), (0, 1), (1, 1), (0, 2), (1, 2), (2, 2), (1, 3), (2, 3), (3, 3), (0, 3), (2, 4), (4, 4), (5, 6), (8, 8), (15, 15), (16, 16), (20, 20)):
        cfg.append(('xy', 'xy', S, G))
        if G <= 4:
            cfg.append(('yx', 'xy', S, G))
    for S, G in ((0, 1), (1, 1), (0, 2), (1, 2), (2, 2), (3, 3), (10, 10), (16, 16)):
        cfg.append(('xyw', 'wxy', S, G))
    for S, G in ((0, 1), (1, 2), (2, 2), (8, 8)):
        cfg.append(('ywx', 'wxy', S, G))
        cfg.append(('wy', 'wxy', S, G))
    for S, G in ((0, 2), (2, 2), (1, 3), (32, 32), (10, 12)):
        cfg.append(('x', 'xy', S, G))
    for S, G in ((0, 1), (1, 1), (4, 4), (8, 8)):
        cfg.append(('xyuv', 'vuyx', S, G))
    cfg += [('xyuvw', 'wvuyx', 1, 1), ('xyuvw', 'wvuyx', 6, 6), ('wvuyx', 'xyuvw', 0, 1), ('uyvx', 'vuyx', 1, 2), ('vxyu', 'wvuyx', 3, 3), ('wyx', 'wxy', 1, 2)]
    if tier != 'quick':
        cfg += [('xyuvw', 'wvuyx', 1, 2), ('xyuvw', 'wvuyx', 0, 2), ('xy', 'xy', 0, 4), ('yx', 'xy', 1, 4), ('yx', 'xy', 0, 4), ('xy', 'xy', 3, 6), ('xyw', 'wxy', 0, 3), ('xyw', 'wxy', 4, 6), ('xyuv', 'vuyx', 0, 2)]
    SZ = {}
    for k, (order, mem, S, G) in enumerate(cfg):
        base, e = struct(order, mem, S, G)
        L = ['l' + d for d in order]
        rest = [d for d in mem if d not in order]
        a = 1 << S
        mx = 1 << G
        pre, dom = [], {}
        for d in mem:
            if d in order:
                vals = [v for v in {a, 2 * a, 3 * a, 4 * a, 5 * a, 6 * a, 7 * a, mx} if v <= mx]
                dom['l' + d] = sorted(vals)
            else:
                dom['l' + d] = [1, 2, 3]
        for d in rest:
            pre.append('i%s < l%s' % (d, d))
        prod = '*'.join(L)
        pre.append('iz < ' + prod)

        def izdom(env, L=tuple(L)):
            import random
            p = 1
            for x in L:
                p *= env[x]
            r = random.Random(p)
            return list(range(p)) if p <= 4096 else [r.randrange(p) for _ in range(200)] + [p - 1, p // 2, p // 3]
        dom['iz'] = izdom
        ps = ['l' + d for d in mem] + ['i' + d for d in rest] + ['iz']
        pid = 'z%d_%s_%d_%d' % (k, order, S, G)
        w = "merge_zcurve over %s of sizes <= %d, multiples of %d" % (','.join(order), mx, a)
        ist = ''.join(" & noarr::idx<'%s'>(i%s)" % (d, d) for d in rest)
        pos = {d: 'i' + d for d in rest}
        pos.update({d: 'r' + d for d in order})
        off, sz = '0', '1'
        for d in mem:
            off += '+%s*%s' % (sz, pos[d])
            sz += '*l' + d
        for d in order:
            obs.append(Eq('%s_%s' % (pid, d), ps, "auto S_ = %s; return u64(S_.sub_state(noarr::idx<'z'>(iz)%s).template get<noarr::index_in<'%s'>>());" % (e, ist, d),
                          steps(order, S, G, L) + ' return r%s;' % d, pre, dom, what='index %s in %s' % (d, w), anchor=A))
        obs.append(Eq(pid + '_off', ps, "auto S_ = %s; return S_ | noarr::offset(noarr::idx<'z'>(iz)%s);" % (e, ist),
                      steps(order, S, G, L) + ' return %s;' % off, pre, dom, what='offset in ' + w, anchor=A))
        ls = ['l' + d for d in mem]
        obs.append(Eq(pid + '_len', ls, "auto S_ = %s; return u64(S_ | noarr::get_length<'z'>());" % e, 'return %s;' % prod, [], what='length of ' + w, anchor=H + 'structs/zcurve.hpp: length'))
        obs.append(Eq(pid + '_size', ls, "auto S_ = %s; return u64(S_ | noarr::get_size());" % e, 'return %s;' % sz, [], what='size of ' + w, anchor=H + 'structs/zcurve.hpp: size'))
        for d in rest:
            obs.append(Eq('%s_len%s' % (pid, d), ls, "auto S_ = %s; return u64(S_ | noarr::get_length<'%s'>());" % (e, d), 'return l%s;' % d, [], what='other length of ' + w, anchor=H + 'structs/zcurve.hpp: length'))
        inner = [d for d in reversed(mem)]
        last = max(inner.index(d) for d in order)
        sig = [('z' if i == last else d) for i, d in enumerate(inner) if d not in order or i == last]
        pl = ', '.join('u64 ' + p for p in ls)
        obs.append(Wit(pid + '_sig', 'inline void f(%s) { auto S_ = %s; static_assert(sig_is<typename decltype(S_)::signature, %s>, "dimension order"); %s }' % (
            pl, e, dimlist(sig), ' '.join("static_assert(decltype(S_)::template has_length<'%s', noarr::state<>>() == %s, \"length availability\");" % (d, 'true' if d in sig else 'false') for d in sorted(set(mem + 'z')))),
            'dimensions of ' + w, H + 'structs/zcurve.hpp: signature, has_length'))
    return [Group(ZPRE, obs, batch=8)]
