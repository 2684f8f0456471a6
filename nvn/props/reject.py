"""Misuse that the documentation forbids does not compile (each rejected program differs minimally from an accepted one)."""
from ..core import Neg, Wit, Group
from .layout import PRE, H

RP = '#include <noarr/structures/structs/zcurve.hpp>\n' + PRE + '''
using namespace noarr;
inline auto VX(u64 n) { return scalar<int>() ^ vector<'x'>(n); }
inline auto VXY(u64 n, u64 m) { return scalar<int>() ^ vector<'x'>(n) ^ vector<'y'>(m); }
inline auto OXY() { return scalar<int>() ^ vector<'x'>() ^ vector<'y'>(); }
inline auto TUP(u64 n) { return pack(scalar<int>() ^ vector<'x'>(n), scalar<float>() ^ vector<'x'>(n), scalar<double>() ^ vector<'y'>(n)) ^ tuple<'t'>(); }
inline auto VT(u64 n) { return TUP(n) ^ vector<'z'>(n); }
template<class S> inline void use(S s) { using Sig = typename S::signature; (void)sizeof(s); static_assert(sizeof(Sig) > 0); }
template<class T> inline void val(T) {}
'''


def mk(tier):
    obs = []

    def n(id, expr, good, bad, what, anchor, pre=''):
        body = 'inline void f(u64 n, u64 m, u64 k, void *p) { %s }' % expr
        obs.append(Neg(id, pre + body.replace('@', good), pre + body.replace('@', bad), '%s: %s' % (what, expr.replace('@', bad)), H + anchor))

    L, SL, B, V, SE, Z, T, ST = 'structs/layouts.hpp', 'structs/slice.hpp', 'structs/blocks.hpp', 'structs/views.hpp', 'structs/setters.hpp', 'structs/zcurve.hpp', 'extra/traverser.hpp', 'base/state.hpp'
    # ---- tuples need static indices inside their range
    w = 'a tuple index must be static'
    n('t_dyn_off', "val(TUP(n) | offset<'t', 'x'>(@, k));", 'lit<1>', 'k', w, L + ': tuple_t')
    n('t_dyn_off2', "val(TUP(n) | offset(idx<'t'>(@) & idx<'x'>(k)));", 'lit<1>', 'std::size_t(1)', w, L + ': tuple_t')
    n('t_dyn_fix', "val(TUP(n) ^ fix<'t'>(@) | offset<'x'>(k));", 'lit<0>', '0', w, SE + ': fix_t')
    n('t_dyn_get', "val(TUP(n) | get_at<'t', 'x'>(p, @, k));", 'lit<0>', 'k', w, L + ': tuple_t')
    n('t_dyn_bag', "val(bag(TUP(n), p).template at<'t', 'x'>(@, k));", 'lit<0>', 'k', w, L + ': tuple_t', '')
    n('t_dyn_len', "val(TUP(n) | get_length<'x'>(idx<'t'>(@)));", 'lit<0>', 'k', w, L + ': tuple_t')
    n('t_dyn_inner', "val(VT(n) ^ fix<'z'>(k) | offset<'t', 'y'>(@, k));", 'lit<2>', 'k', w, L + ': tuple_t')
    n('t_range_off', "val(TUP(n) | offset<'t', 'y'>(lit<@>, k));", '2', '3', 'a tuple index must be inside the tuple', L + ': tuple_t')
    n('t_range_fix', "val(TUP(n) ^ fix<'t'>(lit<@>) | offset<'y'>(k));", '2', '3', 'a tuple index must be inside the tuple', SE + ': fix_t')
    n('t_wrongbranch', "val(TUP(n) | offset<'t', 'y'>(lit<@>, k));", '2', '0', 'a dimension of another tuple element is no dimension of this one', L + ': tuple_t')
    n('t_noidx_len', "val(TUP(n) | get_length<'@'>());", 't', 'x', 'a length inside a tuple needs the tuple index', L + ': tuple_t')
    n('t_noidx_off', "val(TUP(n) | offset<@>(k));", "'t', 'x'>(lit<0>, k)); val(TUP(n) | offset<'t', 'x'>(lit<0>", "'x'", 'a complete index includes the tuple index', L + ': tuple_t') if False else None
    for nm, good, bad in [('shift', "shift<'t'>(lit<1>)", "shift<'t'>(n)"), ('slice1', "slice<'t'>(lit<1>, lit<1>)", "slice<'t'>(n, lit<1>)"), ('slice2', "slice<'t'>(lit<1>, lit<1>)", "slice<'t'>(lit<1>, n)"),
                          ('span1', "span<'t'>(lit<0>, lit<2>)", "span<'t'>(n, lit<2>)"), ('span2', "span<'t'>(lit<0>, lit<2>)", "span<'t'>(lit<0>, n)"),
                          ('step1', "step<'t'>(lit<0>, lit<2>)", "step<'t'>(n, lit<2>)"), ('step2', "step<'t'>(lit<0>, lit<2>)", "step<'t'>(lit<0>, n)")]:
        n('t_' + nm, 'use(TUP(n) ^ @);', good, bad, 'a tuple dimension cannot be sliced dynamically', SL)
    n('t_setlen', "use(TUP(n) ^ @);", "hoist<'x'>()" if False else "fix<'t'>(lit<0>)", "set_length<'t'>(3)", 'the length of a tuple cannot be set', SE)
    n('t_setlen_l', "use(TUP(n) ^ @);", "fix<'t'>(lit<0>)", "set_length<'t'>(lit<3>)", 'the length of a tuple cannot be set', SE)
    n('t_ib', "use(VT(n) ^ into_blocks<'@', 'b'>());", 'z', 't', 'a tuple dimension cannot be split into blocks', B)
    n('t_ibd', "use(VT(n) ^ into_blocks_dynamic<'@', 'b', 'c', 'd'>());", 'z', 't', 'a tuple dimension cannot be split into blocks', B)
    n('t_ibs', "use(VT(n) ^ into_blocks_static<'@', 'b', 'c', 'd'>(lit<2>));", 'z', 't', 'a tuple dimension cannot be split into blocks', B)
    n('t_mb', "use(TUP(n) ^ vector<'z'>(n) ^ vector<'w'>(n) ^ merge_blocks<'w', '@', 'q'>());", 'z', 't', 'a tuple dimension cannot be merged', B)
    n('t_mb2', "use(TUP(n) ^ vector<'z'>(n) ^ vector<'w'>(n) ^ merge_blocks<'@', 'w', 'q'>());", 'z', 't', 'a tuple dimension cannot be merged', B)
    n('t_zc', "use(TUP(n) ^ vector<'z'>(n) ^ vector<'w'>(n) ^ merge_zcurve<'w', '@', 'q'>::maxlen_alignment<64, 2>());", 'z', 't', 'a tuple dimension cannot be merged', Z)
    n('t_join', "use(TUP(n) ^ vector<'z'>(n) ^ vector<'w'>(n) ^ join<'w', '@', 'q'>());", 'z', 't', 'a tuple dimension cannot be joined', V)
    n('t_hoist', "use(VT(n) ^ hoist<'@'>());", 'z', 't', 'a tuple dimension cannot be hoisted', V)
    n('t_hoist_in', "use(VT(n) ^ hoist<'@'>());", 'z', 'x', 'a dimension inside a tuple cannot be hoisted', V)
    # ---- dimension names are unique
    w = 'a dimension name can be used once'
    n('u_vec', "use(VX(n) ^ vector<'@'>(m));", 'y', 'x', w, L + ': vector_t')
    n('u_vec2', "use(VXY(n, m) ^ vector<'@'>());", 'z', 'x', w, L + ': vector_t')
    n('u_arr', "use(VX(n) ^ array<'@', 4>());", 'y', 'x', w, L + ': vector_t')
    n('u_tup', "use(pack(VX(n), scalar<float>()) ^ tuple<'@'>());", 't', 'x', w, L + ': tuple_t')
    n('u_tup2', "use(pack(scalar<float>(), VXY(n, m)) ^ tuple<'@'>());", 't', 'y', w, L + ': tuple_t')
    for nm, good, bad in [('to', "rename<'x', 'z'>()", "rename<'x', 'y'>()"), ('twice', "rename<'x', 'A', 'y', 'B'>()", "rename<'x', 'A', 'x', 'B'>()"), ('same', "rename<'x', 'A', 'y', 'B'>()", "rename<'x', 'A', 'y', 'A'>()"),
                          ('same2', "rename<'x', 'y', 'y', 'x'>()", "rename<'x', 'y', 'y', 'y'>()")]:
        n('u_ren_' + nm, 'use(VXY(n, m) ^ @);', good, bad, w, V + ': rename_t')
    n('u_ren_in', "use(VT(n) ^ rename<'z', '@'>());", 'a', 'x', w, V + ': rename_t')
    n('u_ib_maj', "use(VXY(n, m) ^ into_blocks<'x', '@', 'b'>());", 'a', 'y', w, B)
    n('u_ib_min', "use(VXY(n, m) ^ into_blocks<'x', 'a', '@'>());", 'b', 'y', w, B)
    n('u_ib_eq', "use(VXY(n, m) ^ into_blocks<'x', '@', 'b'>());", 'a', 'b', w, B)
    for pos in range(3):
        g = ['b', 'c', 'd']
        h = list(g)
        h[pos] = 'y'
        e = list(g)
        e[pos] = g[(pos + 1) % 3]
        q = lambda l: ', '.join("'%s'" % x for x in l)
        n('u_ibd%d' % pos, "use(VXY(n, m) ^ into_blocks_dynamic<'x', @>());", q(g), q(h), w, B)
        n('u_ibs%d' % pos, "use(VXY(n, m) ^ into_blocks_static<'x', @>(lit<2>));", q(g), q(h), w, B)
        n('u_ibde%d' % pos, "use(VXY(n, m) ^ into_blocks_dynamic<'x', @>());", q(g), q(e), w, B)
        n('u_ibse%d' % pos, "use(VXY(n, m) ^ into_blocks_static<'x', @>(lit<2>));", q(g), q(e), w, B)
    n('u_mb', "use(VXY(n, m) ^ vector<'z'>(k) ^ merge_blocks<'y', 'x', '@'>());", 'q', 'z', w, B)
    n('u_mb_eq', "use(VXY(n, m) ^ merge_blocks<'y', '@', 'q'>());", 'x', 'y', 'a dimension cannot be merged with itself', B)
    n('u_zc', "use(VXY(n, m) ^ vector<'z'>(k) ^ merge_zcurve<'y', 'x', '@'>::maxlen_alignment<64, 2>());", 'q', 'z', w, Z)
    n('u_zc_eq', "use(VXY(n, m) ^ merge_zcurve<'y', '@', 'q'>::maxlen_alignment<64, 2>());", 'x', 'y', 'a dimension cannot be merged with itself', Z)
    n('u_join', "use(VXY(n, m) ^ vector<'z'>(k) ^ join<'y', 'x', '@'>());", 'q', 'z', w, V + ': join_t')
    n('u_reord', "use(VXY(n, m) ^ reorder<'x', '@'>());", 'y', 'x', 'a dimension can be listed once', V + ': reorder_t')
    # ---- dimensions must exist
    w = 'the dimension must exist'
    for nm, code in [('hoist', "use(VXY(n, m) ^ hoist<'@'>());"), ('len', "val(VXY(n, m) | get_length<'@'>());"), ('ib', "val(VXY(n, m) ^ into_blocks<'@', 'a', 'b'>() ^ set_length<'b'>(2) | get_length<'a'>());"),
                     ('reord', "use(VXY(n, m) ^ reorder<'y', '@'>());"), ('shift_len', "val(VXY(n, m) ^ shift<'@'>(1) | get_length<'@'>());"), ('rev_len', "val(VXY(n, m) ^ reverse<'@'>() | get_length<'@'>());"),
                     ('join', "use(VXY(n, m) ^ join<'y', '@', 'q'>());"), ('ren_len', "val(VXY(n, m) ^ rename<'@', 'q'>() | get_length<'q'>());"),
                     ('for_dims', "traverser(VXY(n, m)).template for_dims<'@'>([](auto) {});"), ('for_each', "traverser(VXY(n, m)).template for_each<'@'>([](auto) {});"),
                     ('for_sections', "traverser(VXY(n, m)).template for_sections<'y', '@'>([](auto) {});"), ('for_dims2', "traverser(VXY(n, m)).template for_dims<'@', 'y'>([](auto) {});")]:
        n('e_' + nm, code, 'x', 'q' if nm not in ('ren_len',) else 'w', w, 'extra/sig_utils.hpp, ' + V)
    n('e_consumed_ren', "val(VXY(n, m) ^ rename<'x', 'q'>() | get_length<'@'>());", 'q', 'x', 'a renamed dimension is gone', V + ': rename_t')
    n('e_consumed_ren_off', "val(VXY(n, m) ^ rename<'x', 'q'>() | offset<'@', 'y'>(k, k));", 'q', 'x', 'a renamed dimension is gone', V + ': rename_t')
    n('e_consumed_ib', "val(VXY(n, m) ^ into_blocks<'x', 'a', 'b'>() ^ set_length<'b'>(2) | get_length<'@'>());", 'a', 'x', 'a split dimension is gone', B)
    n('e_consumed_ib_off', "val(VXY(n, m) ^ into_blocks<'x', 'a', 'b'>() ^ set_length<'b'>(2) | offset<@>(k, k));", "'y', 'a', 'b'>(1, k, k)); val(VXY(n, m) | offset<'y', 'x'", "'y', 'x'", 'a split dimension is gone', B)
    n('e_consumed_mb', "val(VXY(n, m) ^ merge_blocks<'y', 'x', 'q'>() | get_length<'@'>());", 'q', 'x', 'a merged dimension is gone', B)
    n('e_consumed_zc', "val(VXY(n, m) ^ merge_zcurve<'y', 'x', 'q'>::maxlen_alignment<64, 2>() | get_length<'@'>());", 'q', 'x', 'a merged dimension is gone', Z)
    n('e_consumed_join', "val(VXY(n, m) ^ join<'y', 'x', 'q'>() | get_length<'@'>());", 'q', 'x', 'a joined dimension is gone', V)
    n('e_fixed', "val(VXY(n, m) ^ fix<'x'>(1) | get_length<'@'>());", 'y', 'x', 'a fixed dimension is gone', SE)
    # ---- unknown sizes and incomplete indices
    n('s_size', "val(scalar<int>() ^ vector<'x'>(@) | get_size());", 'n', '', 'a structure of unknown length has no size', L)
    n('s_size2', "val(scalar<int>() ^ vector<'x'>(@) ^ vector<'y'>(m) | get_size());", 'n', '', 'a structure of unknown length has no size', L)
    n('s_len', "val(scalar<int>() ^ vector<'x'>(@) | get_length<'x'>());", 'n', '', 'an unknown length cannot be queried', L)
    n('s_bc', "val(scalar<int>() ^ bcast<'x'>(@) | get_length<'x'>());", 'n', '', 'an unknown length cannot be queried', 'structs/bcast.hpp')
    n('s_off', "val(scalar<int>() ^ vector<'x'>(@) ^ vector<'y'>(m) | offset<'x', 'y'>(k, k));", 'n', '', 'an offset that needs an unknown length cannot be computed', L)
    n('s_bag', "val(make_bag(scalar<int>() ^ vector<'x'>(@)).size());", 'n', '', 'memory of unknown size cannot be allocated', 'interop/bag.hpp')
    n('s_trav', "traverser(scalar<int>() ^ vector<'x'>(@)).for_each([](auto) {});", 'n', '', 'an unknown length cannot be traversed', T)
    n('s_rev', "val(scalar<int>() ^ vector<'x'>(@) ^ reverse<'x'>() | offset<'x'>(k));", 'n', '', 'a dimension of unknown length cannot be reversed', SL)
    n('s_shiftlen', "val(scalar<int>() ^ vector<'x'>(@) ^ shift<'x'>(1) | get_length<'x'>());", 'n', '', 'an unknown length cannot be queried', SL)
    n('s_steplen', "val(scalar<int>() ^ vector<'x'>(@) ^ step<'x'>(0, 2) | get_length<'x'>());", 'n', '', 'an unknown length cannot be queried', SL)
    n('s_ib', "val(VXY(n, m) ^ into_blocks<'x', 'a', 'b'>() @ | get_length<'a'>());", "^ set_length<'b'>(2)", '', 'one of the block lengths must be given', B)
    n('s_ib_off', "val(VXY(n, m) ^ into_blocks<'x', 'a', 'b'>() @ | offset<'a', 'b', 'y'>(k, k, k));", "^ set_length<'b'>(2)", '', 'one of the block lengths must be given', B)
    n('s_tupsize', "val(pack(scalar<int>() ^ vector<'x'>(@), scalar<int>()) ^ tuple<'t'>() | get_size());", 'n', '', 'a tuple with an element of unknown size has no size', L)
    n('s_tupoff', "val(pack(scalar<int>() ^ vector<'x'>(@), scalar<int>()) ^ tuple<'t'>() | offset<'t'>(lit<1>));", 'n', '', 'an offset that needs an unknown length cannot be computed', L)
    n('i_off', "val(VXY(n, m) | offset<@);", "'x', 'y'>(k, k)", "'x'>(k)", 'an offset needs a complete index', 'extra/funcs.hpp')
    n('i_off0', "val(VXY(n, m) | offset@);", "<'x', 'y'>(k, k)", "()", 'an offset needs a complete index', 'extra/funcs.hpp')
    n('i_off_fix', "val(VXY(n, m) ^ fix<'x'>(1) | offset@);", "<'y'>(k)", "()", 'an offset needs a complete index', 'extra/funcs.hpp')
    n('i_get', "val(VXY(n, m) | get_at<@);", "'x', 'y'>(p, k, k)", "'x'>(p, k)", 'an element needs a complete index', 'extra/funcs.hpp')
    n('i_get_v', "val(VXY(n, m) ^ shift<'y'>(1) | get_at<@);", "'x', 'y'>(p, k, k)", "'x'>(p, k)", 'an element needs a complete index', 'extra/funcs.hpp')
    n('i_ib', "val(VXY(n, m) ^ into_blocks<'x', 'a', 'b'>() ^ set_length<'b'>(2) | offset<@);", "'a', 'b', 'y'>(k, k, k)", "'a', 'y'>(k, k)", 'an offset needs a complete index', 'extra/funcs.hpp')
    # ---- contradictory lengths
    n('l_ib', "val(VXY(n, m) ^ into_blocks<'x', 'a', 'b'>() ^ set_length<'b'>(2) @ | get_length<'b'>());", "", "^ set_length<'a'>(2)", 'both block lengths of a structure that has a length', B)
    n('l_ib2', "val(VXY(n, m) ^ into_blocks<'x', 'a', 'b'>() ^ set_length<'b'>(2) @ | get_length<'a'>());", "", "^ set_length<'a'>(2)", 'both block lengths of a structure that has a length', B)
    n('l_ibd', "val(VXY(n, m) ^ into_blocks_dynamic<'x', 'a', 'b', 'c'>() ^ set_length<'b'>(2) @ | get_length<'a'>());", "", "^ set_length<'a'>(2)", 'both block lengths of a structure that has a length', B)
    n('l_ibs', "val(VXY(n, m) ^ into_blocks_static<'x', 'c', 'a', 'b'>(lit<2>) @ | get_length<'b'>(idx<'c'>(lit<0>)));", "", "^ set_length<'b'>(2)", 'a static block length cannot be changed', B)
    n('l_ibs2', "val(VXY(n, m) ^ into_blocks_static<'x', 'c', 'a', 'b'>(lit<2>) @ | get_length<'a'>(idx<'c'>(lit<0>)));", "", "^ set_length<'a'>(2)", 'a static block length cannot be changed', B)
    n('l_ibs3', "val(VXY(n, m) ^ into_blocks_static<'x', 'c', 'a', 'b'>(lit<2>) | get_length<'b'>(idx<'c'>(@)));", "lit<1>", "k", 'the border index must be static', B)
    n('l_ibs4', "val(VXY(n, m) ^ into_blocks_static<'x', 'c', 'a', 'b'>(lit<2>) | offset<'c', 'a', 'b', 'y'>(@, k, k, k));", "lit<1>", "k", 'the border index must be static', B)
    n('l_ibs5', "val(VXY(n, m) ^ into_blocks_static<'x', 'c', 'a', 'b'>(lit<2>) | offset<'c', 'a', 'b', 'y'>(lit<@>, k, k, k));", "1", "2", 'the border index is 0 or 1', B)
    n('l_mb', "val(VXY(n, m) ^ merge_blocks<'y', 'x', 'q'>() @ | get_length<'q'>());", "", "^ set_length<'q'>(2)", 'the length of a merged dimension of known lengths cannot be set', B)
    n('l_join', "use(scalar<int>() ^ array<'x', 4>() ^ array<'y', @>() ^ join<'x', 'y', 'q'>());", "4", "5", 'joined dimensions have the same length', V)
    n('l_join_set', "val(VXY(n, m) ^ join<'x', 'y', 'q'>() @ | offset<'q'>(k));", "", "^ set_length<'q'>(4)", 'the length of a sized joined dimension cannot be set', V)
    # ---- traversals keep the layout
    n('o_vec', "traverser(VXY(n, m)).order(@).for_each([](auto) {});", "bcast<'q'>(2)", "vector<'q'>(2)", 'an order must not change the layout', T) if False else None
    # ---- states
    n('st_get', "val(get_index<'@'>(idx<'x', 'y'>(k, k)));", 'y', 'z', 'the item must exist', ST)
    n('st_gets', "val(get_indices<'x', '@'>(idx<'x', 'y'>(k, k)));", 'y', 'z', 'the item must exist', 'extra/shortcuts.hpp')
    n('st_upd', "val(update_index<'@'>(idx<'x', 'y'>(k, k), [](auto i) { return i + 1; }));", 'y', 'z', 'the item must exist', 'extra/shortcuts.hpp')
    n('st_nb', "val(neighbor<'@'>(idx<'x', 'y'>(k, k), 1));", 'y', 'z', 'the item must exist', 'extra/shortcuts.hpp')
    n('st_nblit', "val(neighbor<'x'>(idx<'x', 'y'>(@, k), 1));", 'k', 'lit<2>', 'a static index has no neighbour', 'extra/shortcuts.hpp')
    n('st_lit', "val(lit<4>@);", '', '()', 'lit<N>() must not decay to a run-time number', 'base/utility.hpp')
    n('st_idx', "val(idx<'x'>(@));", 'k', 'p', 'an index is a number', ST)
    n('st_count', "val(idx<'x', 'y'>(@));", 'k, k', 'k', 'one value per dimension', 'extra/shortcuts.hpp')
    # ---- z-curve parameters
    n('z_max', "use(VXY(n, m) ^ merge_zcurve<'y', 'x', 'q'>::maxlen_alignment<@, 2>());", '64', '60', 'the maximum length is a power of two', Z)
    n('z_al', "use(VXY(n, m) ^ merge_zcurve<'y', 'x', 'q'>::maxlen_alignment<64, @>());", '4', '3', 'the alignment is a power of two', Z)
    n('z_al0', "use(VXY(n, m) ^ merge_zcurve<'y', 'x', 'q'>::maxlen_alignment<64, @>());", '4', '0', 'the alignment is a power of two', Z)
    n('z_alm', "use(VXY(n, m) ^ merge_zcurve<'y', 'x', 'q'>::maxlen_alignment<4, @>());", '4', '8', 'the alignment does not exceed the maximum', Z)
    n('z_none', "use(VXY(n, m) ^ merge_zcurve<@>::maxlen_alignment<64, 2>());", "'x', 'q'", "'q'", 'a curve merges at least one dimension', Z)
    # ---- wrong operands
    n('w_pack', "use(pack(scalar<int>(), scalar<float>()) ^ @);", "tuple<'t'>()", "vector<'x'>(n)", 'a vector has one element structure', L)
    return [Group(RP, obs, batch=40)]
