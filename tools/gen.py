#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
S = 'include/noarr/structures/'
VN = 'static value numbering: guarded-polynomial normal forms of compiled IR compared with a plain-arithmetic specification'
TY = 'type-level witnesses: static_asserts and compile-fail programs decided by the type checker'
TV, OT = 'translation_validation', 'other'
PROPS, NA = [], []


def P(id, title, statement, over, text, why, files, mech, tech=VN, level=TV, note=None):
    PROPS.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                      anchors=dict(files=[S + f for f in files], mechanism=[dict(name=n, where=S + w) for n, w in mech]), tech=tech, level=level, note=note))


IP = ['inputs', 'programs']
EX = 'The tests evaluate a handful of structures at a handful of literal lengths and indices; the claim is for every length, index and parameter value.'

P('C01', 'Base layouts map every complete index to the documented offset',
  'For scalars, vectors, arrays, broadcasts and tuples (nested in any way), the offset of a complete index is the documented sum: a vector contributes index times the size of one element, a tuple the sizes of the elements in front, a broadcast nothing. '
  'The same offset is obtained through offset, get_at, a state in any item order, fix followed by offset, and bag access. Elements of a tuple do not overlap and lie inside it.',
  IP, 'every structure built from scalar/vector/array/bcast/tuple, every length and every index in range', EX,
  ['structs/scalar.hpp', 'structs/layouts.hpp', 'structs/bcast.hpp', 'structs/setters.hpp', 'base/structs_common.hpp', 'extra/funcs.hpp', 'interop/bag.hpp'],
  [('strict_offset_of of vector_t, tuple_t, bcast_t', 'structs/layouts.hpp'), ('offset_of', 'base/structs_common.hpp'), ('offset, get_at', 'extra/funcs.hpp')])
P('C02', 'Size and lengths of a structure are the documented ones, views keep the size',
  'The size of a vector is its length times the size of one element, of a tuple the sum of its elements; the length of each dimension is the one given to it. '
  'Views that only re-index (slices, steps, blocks, renames, fixes, hoists, merges, broadcasts) leave the size of the underlying structure unchanged.',
  IP, 'every structure of the base layouts, every single view over them, every length', EX,
  ['structs/layouts.hpp', 'structs/slice.hpp', 'structs/blocks.hpp', 'structs/views.hpp', 'structs/setters.hpp', 'structs/bcast.hpp'],
  [('size, length of each structure', 'structs/layouts.hpp'), ('size of the views', 'structs/slice.hpp')])
P('C03', 'shift, slice, span, step, reverse and fix select exactly the documented elements',
  'Element i of shift(s) is element i+s, of slice(s,n) and span(s,e) element s+i, of step(s,t) element s+i*t, of reverse the i-th from the end, and fix(f) removes the dimension by using f. '
  'The new length is the number of elements so selected (L-s, n, e-s, the number of k with s+k*t<L, L), for all dimensions including tuple dimensions and for views stacked on one another.',
  IP, 'every parameter, length and index, each view and each stack of two (thorough: three) of them over one- to three-dimensional structures and tuples', EX,
  ['structs/slice.hpp', 'structs/setters.hpp', 'extra/shortcuts.hpp'],
  [('sub_state and length of shift_t, slice_t, span_t, step_t, reverse_t', 'structs/slice.hpp'), ('fix_t', 'structs/setters.hpp'), ('symmetric_span', 'extra/shortcuts.hpp')])
P('C04', 'rename, hoist, reorder, join and fix change names and order but no address',
  'rename (also swaps and cycles), hoist and reorder keep every element at its offset and every length, changing only the dimension names or their order; join uses one index for two dimensions and removes both; names that were renamed or joined away are free again. '
  'The order of dimensions reported by the signature is the documented one.',
  IP, 'every structure, permutation and renaming of up to five dimensions, every stack of two of these views, all lengths and indices', EX,
  ['structs/views.hpp', 'structs/setters.hpp', 'structs/bcast.hpp', 'base/signature.hpp', 'extra/sig_utils.hpp'],
  [('rename_t, hoist_t, reorder_t, join_t', 'structs/views.hpp'), ('signature replace', 'base/signature.hpp')])
P('C05', 'Blocking and merging decompose an index exactly',
  'into_blocks maps (major, minor) to major*len(minor)+minor with the missing length computed from the other and the total; into_blocks_dynamic rounds the number of blocks up and makes an element present exactly when it is inside; into_blocks_static splits into whole blocks and a rest. '
  'merge_blocks maps an index to (i / len(minor), i % len(minor)) and is the inverse of into_blocks; strip_mine variants equal blocking followed by hoisting.',
  IP, 'every block size, number of blocks, length and index; each variant alone and in stacks of two', EX,
  ['structs/blocks.hpp', 'extra/shortcuts.hpp'],
  [('into_blocks_t, into_blocks_static_t, into_blocks_dynamic_t, merge_blocks_t', 'structs/blocks.hpp'), ('strip_mine', 'extra/shortcuts.hpp')])
P('C06', 'merge_zcurve enumerates exactly the valid indices along the Z-order curve',
  'The merged dimension has the product of the lengths as its length, and its i-th element is the i-th valid index combination in Z-order (first named dimension most significant), for any lengths up to the declared maximum that are multiples of the declared alignment. '
  'The merged dimensions disappear and the size and the other dimensions stay.',
  IP, 'all lengths, all curve positions, for one to five merged dimensions and the enumerated (maximum, alignment) pairs, plus compile-time witnesses for the topmost levels',
  'The tests walk three small curves with fixed lengths; carries, clipping and widths differ with every length/alignment pair.',
  ['structs/zcurve.hpp'], [('zc_general, zc_special', 'structs/zcurve.hpp'), ('merge_zcurve_t::sub_state, length', 'structs/zcurve.hpp')])
P('C07', 'Views compose: a stack behaves as the composition of its views',
  'For any stack of views over any base, offset, size and the length of every dimension equal those obtained by applying the documented index mapping of each view one after another.',
  IP, 'all pairs of the 19 view forms on all dimensions (thorough: also sampled triples), all parameters and indices',
  'The number of combinations is quadratic in the views; the tests exercise a few hand-picked stacks with literal numbers.',
  ['structs/slice.hpp', 'structs/blocks.hpp', 'structs/views.hpp', 'structs/setters.hpp', 'structs/bcast.hpp', 'structs/layouts.hpp', 'base/structs_common.hpp'],
  [('sub_state / clean_state of every view', 'structs/slice.hpp'), ('offset_of', 'base/structs_common.hpp')])
P('C09', 'A length in the state acts like set_length; availability is exact',
  'Supplying the length of a dimension in the state gives the same offset, size and lengths as setting it in the structure, also through views. '
  'has_length is true exactly for dimensions of the structure whose length is determined and not already indexed, and false for dimensions that do not exist (any more).',
  IP, 'every single view over every base with and without open lengths, all values',
  'Tests set lengths one way for a few structures; they do not compare the two ways nor query all dimension/state combinations.',
  ['structs/setters.hpp', 'structs/layouts.hpp', 'structs/views.hpp', 'structs/blocks.hpp', 'structs/slice.hpp', 'structs/bcast.hpp'],
  [('set_length_t', 'structs/setters.hpp'), ('has_length, length of each structure', 'structs/layouts.hpp')])
P('C15', 'for_each visits every element of the ordered structure once, in signature order',
  'A traversal calls its function exactly once for every valid index combination of the structure after the given order is applied, in lexicographic order of the dimensions (outermost first; tuple elements one after another), each time with a state that holds exactly the indices of the original structures. '
  'for_each, for_sections, the pipe forms, traversal of a bag and .order(A).order(B) versus .order(A^B) all produce the same sequence.',
  IP, 'every length and parameter; every single view and pair of views as order, over vectors, broadcasts, tuples, joined dimensions and Z-curves',
  'Tests compare visited indices for some fixed sizes; off-by-one at empty, partial or uneven sizes and order-specific index translation need all lengths.',
  ['extra/traverser.hpp', 'structs/slice.hpp', 'structs/blocks.hpp', 'extra/sig_utils.hpp', 'base/utility.hpp', 'base/state.hpp'],
  [('traverser_t::for_each_impl', 'extra/traverser.hpp'), ('state_at', 'base/structs_common.hpp'), ('sig_dim_tree', 'extra/sig_utils.hpp')])
P('C16', 'for_dims, for_sections and unions iterate the chosen dimensions in order',
  'for_dims iterates the named dimensions as nested loops in the order they are named, for_sections and for_each<...> in signature order, passing an inner traverser that has exactly those indices fixed and iterates the remaining dimensions. '
  'Traversing several structures iterates each shared dimension once (dimensions only in later structures outermost), taking its length from the first structure that has it.',
  IP, 'all subsets and permutations of up to three dimensions, with and without an order, all unions of the listed structures, all lengths',
  'Tests pick a few dimension subsets at fixed sizes.',
  ['extra/traverser.hpp', 'base/utility.hpp', 'extra/sig_utils.hpp'],
  [('for_dims, for_sections', 'extra/traverser.hpp'), ('union_t, sig_union', 'extra/traverser.hpp'), ('dim_tree_filter, dim_tree_reorder', 'base/utility.hpp')])

exec(open(os.path.join(HERE, 'tools', 'more_props.py')).read()) if os.path.exists(os.path.join(HERE, 'tools', 'more_props.py')) else None

DEFNOTE = {
    TV: 'Holds for all values of the run-time parameters (lengths, indices, offsets, block sizes, data) of every enumerated structure/program shape; shapes are enumerated, not universally quantified. Trusted: clang front end and canonicalisation passes, the normaliser, the specification. Arithmetic is modulo 2^64.',
    OT: 'Decided by the C++ type checker for the enumerated witness programs; trusted: clang front end and the witnesses.',
}


def main():
    from nvn import registry
    PROPS.sort(key=lambda p: p['id'])
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in PROPS:
            q = {k: v for k, v in p.items() if k not in ('tech', 'level', 'note')}
            assert len(p['title']) <= 80, (p['id'], len(p['title']))
            f.write(json.dumps(q) + '\n')
    checks = []
    na = list(NA)
    for p in PROPS:
        if p['id'] in registry.PROPS:
            registry.PROPS[p['id']].level == p['level']
            checks.append(dict(property=p['id'], quick_cmd='python3 check.py %s --quick' % p['id'], thorough_cmd='python3 check.py %s --thorough' % p['id'],
                               technique=p['tech'], level=p['level'], level_note=p['note'] or DEFNOTE[p['level']]))
        elif p['id'] not in [x['property'] for x in na]:
            raise SystemExit('no check and no reason for ' + p['id'])
    m = dict(version=1, setup_cmd='python3 -m nvn.selftest', checks=checks, not_applicable=na,
             notes='No hooks: the checks compile probes against the unmodified headers of /repo. Genuine defects found are repaired by fix: commits in /repo or listed in known_findings.json.')
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


main()
