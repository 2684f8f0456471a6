"""Shortcuts and conversions: every one is the composition it stands for."""
import copy
import itertools
from ..core import Eq, Wit, Group
from ..model import *
from ..gen import *
from .layout import PRE, H, SLICES, BLOCKS, OTHER, stacks, sig_obs, _cpp, all_obs
from .trav import TPRE, loops

A = H + 'extra/shortcuts.hpp'


def q2(ds):
    return ', '.join("'%s'" % d for d in ds)


def like_obs(pid, s, code, dims, elem, pre='', what=''):
    """code builds (from scalar) nested vectors with the lengths of s in dims (innermost first)"""
    out = []
    sz = Scalar.SZ[elem]
    ip = ['i' + d for d in dims]
    off, size = 'u64(0)', 'u64(%d)' % sz
    for d in dims:
        off = '(%s + i%s*%s)' % (off, d, size)
        size = '(%s*%s)' % (size, s.length(d))
    impl = pre + 'auto S_ = %s; ' % s.cpp + 'auto R_ = %s; static_assert(sig_is<typename decltype(R_)::signature%s>, "dimension order"); ' % (code, ''.join(", '%s'" % d for d in reversed(dims)))
    impl += 'sink2(R_ | noarr::offset<%s>(%s), R_ | noarr::get_size()); ' % (q2(dims), ', '.join(ip)) if dims else ''
    spec = 'sink2(%s, %s); ' % (off, size)
    for d in dims:
        impl += "sink(R_ | noarr::get_length<'%s'>()); " % d
        spec += 'sink(%s); ' % s.length(d)
    out.append(Eq(pid, s.params + ip, impl, spec, s.pre, ret='void', what=what or '%s with S_ = %s' % (code, s.cpp), anchor=A))
    return out


def mk(tier):
    th = tier == 'thorough'
    obs = []

    def alias(id, s, cpp, what=None):
        t = _cpp(copy.copy(s), cpp)
        obs.extend(all_obs(id, t, what or cpp, A))
        obs.extend(sig_obs(id, t))
    I, D = Scalar('int'), Scalar('double')
    x, xy, xyz = (SizedVector(I, 'x', N('n')), SizedVector(SizedVector(I, 'x', N('n')), 'y', N('m')), SizedVector(SizedVector(SizedVector(D, 'x', N('n')), 'y', N('m')), 'z', N('l')))
    sc = 'noarr::scalar<int>()'
    # ---- several vectors / broadcasts at once: the first one is the innermost
    alias('vectors2', xy, sc + " ^ noarr::vectors<'x', 'y'>(n, m)")
    alias('vectors3', xyz, "noarr::scalar<double>() ^ noarr::vectors<'x', 'y', 'z'>(n, m, l)")
    alias('vectors1', x, sc + " ^ noarr::vectors<'x'>(n)")
    alias('vectors_open', xy, sc + " ^ noarr::vectors<'x', 'y'>() ^ noarr::set_length<'x', 'y'>(n, m)")
    alias('vectors_open2', xy, sc + " ^ noarr::vectors<'x', 'y'>() ^ noarr::set_length<'y', 'x'>(m, n)")
    alias('vectors_st', xy, sc + " ^ noarr::vectors<'x', 'y'>() ^ noarr::set_length(noarr::make_state<noarr::length_in<'x'>, noarr::length_in<'y'>>(n, m))")
    alias('vectors_st2', xy, sc + " ^ noarr::vectors<'x', 'y'>() ^ noarr::set_length<'y', 'x'>(noarr::make_state<noarr::length_in<'x'>, noarr::length_in<'y'>, noarr::length_in<'z'>>(n, m, n + m))")
    alias('vectors_st3', xy, sc + " ^ noarr::vectors<'x', 'y'>() ^ noarr::set_length(noarr::make_state<noarr::length_in<'y'>, noarr::index_in<'q'>, noarr::length_in<'x'>>(m, n, n))")
    alias('bcast2', Bcast(Bcast(x, 'a', N('m')), 'b', N('l')), x.cpp + " ^ noarr::bcast<'a', 'b'>(m, l)")
    alias('bcast_open', Bcast(Bcast(x, 'a', N('m')), 'b', N('l')), x.cpp + " ^ noarr::bcast<'a'>() ^ noarr::bcast<'b'>() ^ noarr::set_length<'b', 'a'>(l, m)")
    ax = SizedVector(SizedVector(I, 'x', LIT(4)), 'y', LIT(6))
    alias('array2', ax, sc + " ^ noarr::array<'x', 4>() ^ noarr::array<'y', 6>()")
    obs.append(Wit('array_t', "static_assert(std::is_same_v<noarr::array_t<'x', 4, noarr::scalar<int>>, decltype(noarr::scalar<int>() ^ noarr::array<'x', 4>())>);", 'array_t', A))
    # ---- fixing several dimensions, and from a state
    fx = lambda s, **k: _fix(s, k)
    for nm, f in [('fix2', "noarr::fix<'x', 'z'>(f0, f1)"), ('fix2r', "noarr::fix<'z', 'x'>(f1, f0)"), ('fixst', "noarr::fix(noarr::idx<'x', 'z'>(f0, f1))"), ('fixstr', "noarr::fix(noarr::idx<'z', 'x'>(f1, f0))"),
                  ('fixdims', "noarr::fix<'x', 'z'>(noarr::idx<'y', 'z', 'x'>(f1 + f0, f1, f0))"), ('fixdimsr', "noarr::fix<'z', 'x'>(noarr::idx<'x', 'z', 'w'>(f0, f1, f0 + 1))"),
                  ('fixlen', "noarr::fix(noarr::make_state<noarr::length_in<'x'>, noarr::index_in<'z'>, noarr::length_in<'y'>, noarr::index_in<'x'>>(f1, f1, f0, f0))")]:
        alias(nm, Fix(Fix(xyz, 'x', N('f0')), 'z', N('f1')), xyz.cpp + ' ^ ' + f)
    # ---- blocks in one go
    for nm, s, c in [('ib', IntoBlocks(xy, 'x', 'a', 'b', N('k')), "noarr::into_blocks<'x', 'a', 'b'>(k)"), ('ibd', IntoBlocks(xy, 'x', 'a', 'x', N('k')), "noarr::into_blocks<'x', 'a'>(k)"),
                     ('ibdyn', IntoBlocksDyn(xy, 'x', 'a', 'b', 'c', N('k')), "noarr::into_blocks_dynamic<'x', 'a', 'b', 'c'>(k)"),
                     ('sm', Hoist(IntoBlocks(xy, 'x', 'a', 'b', N('k')), 'a'), "noarr::strip_mine<'x', 'a', 'b'>(k)"), ('smd', Hoist(IntoBlocks(xy, 'x', 'a', 'x', N('k')), 'a'), "noarr::strip_mine<'x', 'a'>(k)"),
                     ('smo', Hoist(IntoBlocks(xy, 'x', 'a', 'b', N('k')), 'a'), "noarr::strip_mine<'x', 'a', 'b'>() ^ noarr::set_length<'b'>(k)"),
                     ('smdyn', Hoist(IntoBlocksDyn(xy, 'x', 'a', 'b', 'c', N('k')), 'a'), "noarr::strip_mine_dynamic<'x', 'a', 'b', 'c'>(k)"),
                     ('smdyno', Hoist(IntoBlocksDyn(xy, 'x', 'a', 'b', 'c', N('k')), 'a'), "noarr::strip_mine_dynamic<'x', 'a', 'b', 'c'>() ^ noarr::set_length<'b'>(k)"),
                     ('mb', MergeBlocks(xy, 'y', 'x', 'q'), "noarr::merge_blocks<'y', 'x', 'q'>()"), ('mbd', MergeBlocks(xy, 'y', 'x', 'x'), "noarr::merge_blocks<'y', 'x'>()")]:
        alias(nm, s, xy.cpp + ' ^ ' + c)
    ox = SizedVector(Vector(I, 'x'), 'y', N('m'))
    alias('mblen', MergeBlocks(SizedVector(SizedVector(I, 'x', N('k')), 'y', N('m')), 'y', 'x', 'q'), "%s ^ noarr::vector<'x'>() ^ noarr::vector<'y'>(m) ^ noarr::merge_blocks<'y', 'x', 'q'>(k)" % sc)
    # ---- symmetric spans
    alias('ss2', SymSpan(SymSpan(xyz, 'x', N('w')), 'z', N('w')), "%s ^ noarr::symmetric_span<'x', 'z'>(%s, w)" % (xyz.cpp, xyz.cpp))
    alias('sss2', SymSpan(SymSpan(xyz, 'x', N('w')), 'z', N('v')), "%s ^ noarr::symmetric_spans<'x', 'z'>(%s, w, v)" % (xyz.cpp, xyz.cpp))
    alias('sss1', SymSpan(xyz, 'y', N('w')), "%s ^ noarr::symmetric_spans<'y'>(%s, w)" % (xyz.cpp, xyz.cpp))
    alias('ss_st', SymSpan(xyz, 'y', N('w')), "%s ^ noarr::symmetric_span<'y'>(%s, noarr::idx<'x'>(n), w)" % (xyz.cpp, xyz.cpp))
    alias('sss_st', SymSpan(SymSpan(xy, 'x', N('w')), 'y', N('v')), "%s ^ noarr::symmetric_spans<'x', 'y'>(noarr::scalar<int>() ^ noarr::vectors<'x', 'y'>(), noarr::make_state<noarr::length_in<'x'>, noarr::length_in<'y'>>(n, m), w, v)" % xy.cpp)
    # ---- like another structure
    srcs = [('x', x), ('xy', xy), ('xyz', xyz), ('bc', Bcast(x, 'y', N('m')))] + [(n_, s_) for n_, s_, vs in stacks(SLICES + BLOCKS + OTHER, 1, [('b', xy)]) if 'dyn' not in vs and 'dyn_major' not in vs and 'static' not in vs]
    for nm, s in srcs:
        ds = list(reversed([d for d, k in s.dims() if k is None]))
        if any(s.length(d) is None for d in ds) or any(k is not None for _, k in s.dims()):
            continue
        if not ds:
            continue
        S_ = 'S_'
        obs += like_obs('vlike_' + nm, s, 'noarr::scalar<int>() ^ noarr::vectors_like(S_)', ds, 'int')
        obs += like_obs('vliked_' + nm, s, 'noarr::scalar<double>() ^ noarr::vectors_like<%s>(S_)' % q2(reversed(ds)), list(reversed(ds)), 'double')
        obs += like_obs('v1like_' + nm, s, "noarr::scalar<short>() ^ noarr::vector_like<'%s'>(S_)" % ds[-1], [ds[-1]], 'short')
        obs += like_obs('llike_' + nm, s, "noarr::scalar<int>() ^ noarr::vectors<%s>() ^ noarr::lengths_like<%s>(S_)" % (q2(ds), q2(reversed(ds))), ds, 'int')
        obs += like_obs('l1like_' + nm, s, "noarr::scalar<int>() ^ noarr::vector<'%s'>() ^ noarr::length_like<'%s'>(S_)" % (ds[0], ds[0]), [ds[0]], 'int')
        obs += like_obs('tlike_' + nm, s, 'noarr::scalar<int>() ^ noarr::vectors_like(noarr::traverser(S_))', ds, 'int')
        obs += like_obs('tliked_' + nm, s, 'noarr::scalar<int>() ^ noarr::vectors_like<%s>(noarr::traverser(S_))' % q2(reversed(ds)), list(reversed(ds)), 'int')
        obs += like_obs('tllike_' + nm, s, "noarr::scalar<int>() ^ noarr::vectors<%s>() ^ noarr::lengths_like<%s>(noarr::traverser(S_))" % (q2(ds), q2(ds)), ds, 'int')
        if ' ^ ' in s.cpp[len(xy.cpp):]:
            o = s.cpp[len(xy.cpp) + 3:]
            if nm.startswith('b_') and 'vector' not in nm:
                obs += like_obs('tolike_' + nm, s, 'noarr::scalar<int>() ^ noarr::vectors_like(noarr::traverser(%s).order(%s))' % (xy.cpp, o), ds, 'int')
        # number of index combinations
        prod = ' * '.join(s.length(d) for d in ds)
        obs.append(Eq('iss_' + nm, s.params, 'return noarr::index_space_size(%s);' % s.cpp, 'return %s;' % prod, s.pre, what='index_space_size(%s)' % s.cpp, anchor=A))
        for r in range(1, len(ds)):
            sub = list(reversed(ds))[:r]
            t = 'noarr::dim_sequence<>'
            for d in reversed(sub):
                t = "noarr::dim_tree<'%s', %s>" % (d, t)
            obs.append(Eq('issd%d_%s' % (r, nm), s.params, 'return noarr::index_space_size<%s>(%s);' % (t, s.cpp), 'return %s;' % ' * '.join(s.length(d) for d in sub), s.pre, what='index_space_size<%s>(%s)' % (t, s.cpp), anchor=A))
    # with lengths supplied by a state
    st = "noarr::make_state<noarr::length_in<'x'>, noarr::length_in<'y'>>(n, m)"
    o = "(noarr::scalar<int>() ^ noarr::vectors<'x', 'y'>())"
    for k, (c, ds) in enumerate([('noarr::vectors_like(%s, %s)' % (o, st), 'xy'), ("noarr::vectors_like<'y', 'x'>(%s, %s)" % (o, st), 'yx'), ("noarr::vector_like<'y'>(%s, %s)" % (o, st), 'y'),
                                 ("noarr::vectors<'x', 'y'>() ^ noarr::lengths_like<'x', 'y'>(%s, %s)" % (o, st), 'xy'), ("noarr::vector<'x'>() ^ noarr::length_like<'x'>(%s, %s)" % (o, st), 'x')]):
        obs += like_obs('stlike%d' % k, xy, 'noarr::scalar<int>() ^ ' + c, list(ds), 'int')
    # tuples: the number of index combinations is the sum over the elements
    F = Scalar('float')
    for nm, t, want in [('t0', Tuple('t', I, F, I), 'u64(3)'), ('vt0', SizedVector(Tuple('t', I, F), 'z', N('l')), 'l * 2'),
                        ('t1', Tuple('t', x, F), 'n + 1'), ('t2', Tuple('t', x, SizedVector(F, 'x', N('m')), I), 'n + m + 1'), ('t3', SizedVector(Tuple('t', xy, F, SizedVector(F, 'y', N('k'))), 'z', N('l')), 'l * (n*m + 1 + k)'),
                        ('t4', Tuple('t', x), 'n'), ('tt', Tuple('t', Tuple('s', x, I), SizedVector(F, 'y', N('m'))), 'n + 1 + m')]:
        obs.append(Eq('iss_' + nm, t.params, 'return noarr::index_space_size(%s);' % t.cpp, 'return %s;' % want, t.pre, what='index_space_size(%s)' % t.cpp, anchor=A))
    # ---- zeros
    for nm, s in [('x', x), ('xyz', xyz), ('b', IntoBlocks(xy, 'x', 'a', 'b', N('k')))]:
        obs.append(Wit('zero_' + nm, 'inline void f(%s) { auto S_ = %s; auto z_ = noarr::fix_zeros(noarr::sig_dim_tree<decltype(S_)::signature>()); static_assert(only_dims<decltype(z_), %s> && has_dims<decltype(z_), %s>); %s }' % (
            ', '.join('u64 ' + p for p in s.params), s.cpp, q2(s.dimnames()), q2(s.dimnames()), ' '.join("static_assert(decltype(noarr::get_index<'%s'>(z_))::value == 0);" % d for d in s.dimnames())), 'fix_zeros', A))
    # ---- conversions
    obs.append(Eq('tostruct', ['n', 'm', 'i', 'j', 'p'], "auto S_ = %s; auto b_ = noarr::make_bag(S_, (void *)p); static_assert(noarr::ToStruct<decltype(S_)> && noarr::ToStruct<decltype(b_)> && !noarr::ToStruct<int>); "
                  "static_assert(std::is_same_v<noarr::to_struct_t<decltype(b_)>, decltype(S_)>); auto c_ = noarr::convert_to_struct(S_); auto d_ = noarr::convert_to_struct(b_); "
                  "sink2(c_ | noarr::offset<'x', 'y'>(i, j), d_ | noarr::offset<'x', 'y'>(i, j)); sink2(c_ | noarr::get_size(), d_ | noarr::get_length<'y'>());" % xy.cpp,
                  'sink2((i + j*n)*4, (i + j*n)*4); sink2(n*m*4, m);', ret='void', what='convert_to_struct', anchor=H + 'extra/to_struct.hpp'))
    obs.append(Eq('tostate', ['n', 'm', 'i', 'j'], "auto S_ = %s; auto t_ = noarr::traverser(S_) ^ noarr::fix<'x', 'y'>(i, j); auto s_ = noarr::convert_to_state(t_); auto u_ = noarr::convert_to_state(noarr::idx<'x', 'y'>(i, j)); "
                  "static_assert(noarr::ToState<decltype(t_)> && noarr::ToState<decltype(s_)> && !noarr::ToState<int>); "
                  "sink4(noarr::get_index<'x'>(t_), noarr::get_index<'y'>(s_), noarr::get_index<'x'>(u_), noarr::get_index<'y'>(u_)); auto r_ = S_ ^ noarr::fix(t_); sink(r_ | noarr::offset()); auto q_ = S_ ^ noarr::fix<'y', 'x'>(t_); sink(q_ | noarr::offset());" % xy.cpp,
                  'sink4(i, j, i, j); sink((i + j*n)*4); sink((i + j*n)*4);', ret='void', what='convert_to_state of a traverser', anchor=H + 'base/state.hpp, extra/traverser.hpp'))
    # ---- pipe operators of the query functions
    obs.append(Eq('pipes', ['n', 'm', 'i', 'j'], "auto S_ = %s; auto st_ = noarr::idx<'x', 'y'>(i, j); sink4(S_ | noarr::offset(st_), noarr::offset(st_)(S_), S_ | noarr::get_size(), noarr::get_size()(S_)); sink2(S_ | noarr::get_length<'x'>(), noarr::get_length<'x'>()(S_));" % xy.cpp,
                  'sink4((i + j*n)*4, (i + j*n)*4, n*m*4, n*m*4); sink2(n, n);', ret='void', what='query functions applied directly and by pipe', anchor=H + 'extra/funcs.hpp'))
    return [Group(TPRE, obs, batch=25)]


def _fix(s, k):
    for d, v in k.items():
        s = Fix(s, d, v)
    return s
