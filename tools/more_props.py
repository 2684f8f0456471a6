
P('C08', 'Static (lit) and run-time numbers are interchangeable',
  'Replacing any of the lengths, parameters or indices of a structure by compile-time constants of the same value changes no offset, size or length, and when all of them are static the results are constant expressions.',
  IP, 'every single view and sampled pairs of views over the base layouts; each number static or dynamic; dynamic ones range over all values',
  'The static and dynamic paths are different overloads; tests fix one of them per structure.',
  ['base/utility.hpp', 'base/contain.hpp', 'structs/layouts.hpp', 'structs/slice.hpp', 'structs/blocks.hpp', 'structs/setters.hpp', 'structs/views.hpp', 'structs/bcast.hpp'],
  [('constexpr_arithmetic, good_index_t', 'base/utility.hpp'), ('lit', 'extra/shortcuts.hpp')])
P('C10', 'The signature and its traits describe the structure',
  'The signature of a structure lists exactly its dimensions in order (with one branch per element of a tuple), any static length in it is the actual length of that dimension, and ends in the element type. '
  'any_accept/all_accept, HasDims, is_point, is_cube, sig_dim_tree, sig_find_dim and scalar_t agree with it.',
  ['programs'], 'every single view and sampled pairs of views, with run-time, static and mixed numbers, over vectors, arrays and tuples',
  'A wrong signature only shows in a later traversal or access of some other structure; tests pin signatures for a few structures.',
  ['base/signature.hpp', 'extra/sig_utils.hpp', 'extra/struct_traits.hpp', 'extra/struct_concepts.hpp', 'structs/slice.hpp', 'structs/blocks.hpp', 'structs/views.hpp', 'structs/setters.hpp'],
  [('replace', 'base/signature.hpp'), ('is_cube, scalar_t', 'extra/struct_traits.hpp'), ('dim_replacement of every view', 'structs/slice.hpp')], TY, OT)
P('C11', 'Documented misuse is rejected at compile time',
  'Programs that the documentation forbids do not compile: run-time or out-of-range tuple indices, slicing or blocking a tuple dimension at run time, re-using a dimension name, naming a dimension that does not exist or was consumed by a view, '
  'querying an unknown length or size, incomplete indices, contradictory lengths, bad z-curve parameters, and unusable states. Each rejected program has a permitted twin differing only in the offending part, which does compile.',
  ['programs'], 'about 125 pairs of programs, one per documented restriction and view', 'A program that must not compile cannot be part of a unit test suite.',
  ['structs/layouts.hpp', 'structs/slice.hpp', 'structs/blocks.hpp', 'structs/views.hpp', 'structs/setters.hpp', 'structs/zcurve.hpp', 'base/state.hpp', 'extra/funcs.hpp'],
  [('static_asserts and requires clauses', 'structs/views.hpp')], TY, OT)
P('C12', 'A state is a map from tags to numbers; its operations are map operations',
  '& merges two states (the right one wins), + and - work item by item with a missing item counting as zero, comparison compares as maps, remove/filter/with and the index/length shortcuts (idx, get_index, get_indices, update_index, neighbor, filter_indices...) act on exactly the named items. '
  'Items hold their values whether given as run-time numbers or as lit constants, in any order.',
  IP, 'all pairs of the enumerated states of up to five tags in several item orders, static and dynamic items; all values', EX,
  ['base/state.hpp', 'extra/shortcuts.hpp'], [('state, operator&, operator+, operator-', 'base/state.hpp'), ('idx, neighbor, update_index', 'extra/shortcuts.hpp')])
P('C13', 'Composing proto-structures is associative and agrees with direct application',
  'However a chain of proto-structures is grouped (p1 ^ (p2 ^ p3), stored composition, neutral_proto, make_proto, pack), applying it gives a structure with the same offsets, size, lengths and dimension order as applying the parts one by one. '
  'A composition preserves the layout exactly when all its parts do.',
  ['programs', 'inputs'], 'all single views, pairs and sampled longer chains over the base layouts, in ten groupings; all lengths, parameters and indices',
  'Composition order errors only appear for non-commuting views; tests compose a few by hand.',
  ['base/structs_common.hpp'], [('operator^, compose_proto, pack', 'base/structs_common.hpp'), ('neutral_proto, make_proto', 'base/structs_common.hpp')])
P('C14', 'Bags address base+offset, own their memory once and reject misuse',
  'An element of a bag lies at data() plus the offset of the structure, with the element type and the constness of the data, for raw, owning and view bags alike, and get_at finds the same element in memory given by a pointer of any constness. '
  'An owning bag allocates exactly size() zero-initialised bytes and releases them once, also across moves, assignments and views of rvalues; copying an owning bag, changing its layout, writing through a read-only bag and incomplete indices are rejected at compile time.',
  IP, 'every single view and sampled pairs over the base layouts, every bag policy, all lengths, parameters, indices and base addresses',
  'Ownership errors and misaddressing need particular structures, moves and sizes; rejection cannot be written as a unit test.',
  ['interop/bag.hpp', 'extra/funcs.hpp'], [('bag_t', 'interop/bag.hpp'), ('get_at', 'extra/funcs.hpp')])
P('C26', 'Shortcuts and conversions equal what they abbreviate',
  'vectors, sized_vectors, vector_like, vectors_like, symmetric_span(s), strip_mine, index_space_size, to_struct, lengths_like and the shortcut forms of the views yield structures with the same offsets, sizes, lengths and dimension order as the compositions they stand for.',
  IP, 'the shortcuts over the base layouts, views and tuples; all lengths, parameters and indices', EX,
  ['extra/shortcuts.hpp', 'extra/to_struct.hpp', 'structs/slice.hpp', 'structs/blocks.hpp'],
  [('vectors_like, symmetric_spans, index_space_size', 'extra/shortcuts.hpp'), ('to_struct', 'extra/to_struct.hpp')])
P('C17', 'Iterators and ranges of a traverser cover exactly its elements',
  'begin()/end(), range() and range<Dim>() iterate the chosen dimension in order, each element being a traverser of the remaining ones; random access, arithmetic, comparisons, indexing, size, sub-ranges, order() on a range, and iteration forward and backward all agree with it. '
  'Splitting a range (as TBB does), repeatedly, gives consecutive parts that together are the range, both non-empty when it is divisible.',
  IP, 'base structures, every single view as the order, unions and bags; all lengths, parameters, positions and split depths up to two', EX,
  ['interop/traverser_iter.hpp', 'interop/tbb.hpp', 'extra/traverser.hpp'],
  [('traverser_iterator_t, traverser_range_t', 'interop/traverser_iter.hpp'), ('splitting constructor', 'interop/tbb.hpp')])
P('C18', 'Executing a planner performs the nested loops it describes',
  'A planner runs its innermost ending (for_each, for_each_elem) once for every element of the ordered union of its structures, in order, with the state and the elements of the bags; every for_sections callback runs once for each combination of its dimensions, around the loops inside it, however orders, sections and endings were attached. '
  'for_dims additionally moves its dimensions outside. Iterators and ranges of planners behave like those of traversers and keep the endings.',
  IP, 'base structures, tuples and unions; every single view and sampled pairs as the order; all permutations of up to three dimensions with up to two sections; all lengths and parameters', EX,
  ['extra/planner.hpp', 'interop/planner_iter.hpp', 'extra/traverser.hpp'],
  [('planner_t::for_each_impl, planner_endings', 'extra/planner.hpp'), ('planner_iterator_t, planner_range_t', 'interop/planner_iter.hpp')])
P('C19', 'Parallel helpers hand out every element exactly once and share no output',
  'tbb_for_each/for_sections, omp_for_each/for_sections, std_for_each/for_sections and the planner executors call the callback for every element (section) of the traversal exactly once; parts given to different threads are disjoint. '
  'tbb_reduce lets two parts write to the same output only if they write different elements; otherwise every thread gets its own copy of the right size, filled by the neutral callback first, and joined once into the output, then released.',
  ['programs', 'inputs', 'schedules'], 'base structures and every single view as the order, with the runtime libraries replaced by models of their documented contract (cut into two parts, each in a thread of its own)',
  'A lost update or a skipped part needs a particular schedule and a particular order; the repository has no tests of these headers.',
  ['interop/tbb.hpp', 'interop/omp.hpp', 'interop/std_para.hpp', 'interop/traverser_iter.hpp', 'interop/planner_iter.hpp'],
  [('tbb_for_each, tbb_reduce, planner_tbb_execute', 'interop/tbb.hpp'), ('std_for_each', 'interop/std_para.hpp'), ('omp_for_each', 'interop/omp.hpp')])
P('C20', 'Serialization writes and reads every element once, in traversal order',
  'serialize_data writes the elements of a structure (or bag) in the order of its traversal, each exactly once and each followed by one newline, and writes nothing else; deserialize_data reads one value into each element in the same order and touches nothing else, so that writing a structure and reading it with a structure of the same dimension order transfers every element, whatever the layouts. '
  'Both return the very stream they were given; read-only data cannot be read into.',
  IP, 'base structures, all element types, every single view and sampled pairs, raw and bag forms; all lengths, parameters, memory contents and streams', EX,
  ['interop/serialize_data.hpp', 'extra/funcs.hpp'], [('serialize_data, deserialize_data', 'interop/serialize_data.hpp')])
P('C21', 'Offsets and strides along one dimension describe the address function',
  'For every dimension of a structure, the difference of offset_along between two positions equals the difference of the offsets of the elements at these positions, all other indices being equal; stride_along equals the difference between two neighbouring positions (negative differences modulo 2^64). '
  'Neither is offered for a name that the structure does not have, or that was renamed, joined or split away.',
  IP, 'base structures, joins and tuples; every single view, sampled pairs; static and run-time parameters; all lengths, parameters and indices', EX,
  ['structures/introspection/offset_along.hpp', 'structures/introspection/stride_along.hpp'],
  [('offset_along', 'introspection/offset_along.hpp'), ('stride_along', 'introspection/stride_along.hpp')])
P('C22', 'The lower bound along a dimension is the smallest offset of its positions',
  'lower_bound_along of a dimension, for all its positions or for those in [min, end), is the smallest offset_along of these positions, and lower_bound_at is the position where it is attained, for dimensions made by vectors, shifted, sliced, reversed, renamed, hoisted or split into blocks. '
  'It is not offered for names the structure does not have, nor for dimensions whose index is already given.',
  IP, 'base structures; every single view except step and merges; all pairs of shifting, slicing and reversing views; all lengths, parameters and ranges', EX,
  ['structures/introspection/lower_bound_along.hpp'], [('lower_bound_along, lower_bound_at', 'introspection/lower_bound_along.hpp')])
P('C23', 'The mangled text of a structure denotes that very structure',
  'mangle and mangle_to_str give the same text, and this text, read as C++ in the namespace noarr, is the very type that was mangled; the text of mangle_expr is an expression of that type with the very same offsets and lengths. '
  'So structures of different types have different texts, and no number (of any sign and size) loses a digit. Scalars are fixed-width integers, float, double and long double; the minimum of int64_t, for which C++ has no literal, is excepted.',
  ['programs'], 'base structures, tuples and joins; every single view, sampled pairs; static and run-time numbers, among them the boundaries of every integer type and of every number of digits', 
  'Tests compare three texts; negative numbers and large static lengths are in none of them.',
  ['extra/mangle.hpp', 'base/structs_common.hpp', 'structs/layouts.hpp', 'structs/views.hpp', 'structs/slice.hpp', 'structs/blocks.hpp', 'structs/zcurve.hpp', 'structs/setters.hpp', 'structs/bcast.hpp'],
  [('mangle, mangle_to_str, mangle_expr', 'extra/mangle.hpp'), ('name and params of every structure', 'structs/views.hpp')], TY, OT)
P('C24', 'Each CUDA thread gets its own part, and all parts together are the whole',
  'The inner traverser of cuda_threads, run by the thread with given coordinates, visits exactly the elements whose bound dimensions have these coordinates, and the launch parameters are the lengths of the bound dimensions, so that every element is visited by exactly one thread. cuda_step splits like step with the rank and the number of threads of the group. '
  'A structure made by cuda_striped has disjoint copies inside its size, no memory cell or (where possible) bank holds data of two stripes, the distance of neighbouring stripes is constant, and a thread uses stripe threadIdx.x modulo their number.',
  ['programs', 'inputs', 'schedules'], 'all pairs of dimensions of the base structures, blocks, and up to six bound dimensions; element sizes 1 to 16, 1 to 128 stripes, several numbers and widths of banks; all lengths and coordinates',
  'Needs a GPU to run; the tests fix a few coordinates, and cuda_step has no test.',
  ['interop/cuda_striped.cuh', 'interop/cuda_traverser.cuh', 'interop/cuda_step.cuh'],
  [('cuda_fix_t, cuda_traverser_t', 'interop/cuda_traverser.cuh'), ('cuda_striped_t', 'interop/cuda_striped.cuh'), ('cuda_step', 'interop/cuda_step.cuh')],
  note='The CUDA built-in variables are modelled by ordinary variables set by the probe.')
P('C25', 'Structures, states and traversers are plain values of their run-time numbers',
  'Every structure, proto-structure, state, traverser and container is a standard-layout, trivially copyable and trivially destructible type; it is empty (and trivially default-constructible) exactly if it holds no run-time number, otherwise not default-constructible and exactly as large as its numbers. '
  'The container gives back every value it was made of, in order, also when joined or unpacked.',
  IP, 'base structures, tuples; every single view and sampled pairs, as structure, proto-structure and order; run-time and static numbers; containers and states of up to five run-time and static values', 
  'Tests assert some of this for a few types; equal or empty members in particular positions are what breaks it.',
  ['base/contain.hpp', 'base/state.hpp', 'structs/layouts.hpp', 'structs/views.hpp', 'structs/slice.hpp', 'structs/blocks.hpp', 'structs/setters.hpp', 'structs/bcast.hpp', 'extra/traverser.hpp'],
  [('contain_impl, contain_cat', 'base/contain.hpp'), ('strict_contain', 'base/contain.hpp')], TY, OT)
P('C27', 'Anything computable at compile time is a constant expression, also if const',
  'Making structures, asking for offsets, sizes, lengths, bounds, strides and state items, and traversing (for_each, for_dims, for_sections, iterators, ranges, planners) are constant expressions whenever the numbers and the given function are, '
  'so for numbers within the documented limits nothing in them is undefined, overflows or reads what was not set. They do not modify the structure, state or traverser: it may be const. Access to the memory of an element is excepted (it needs a reinterpret_cast).',
  ['programs'], 'a fixed sample (by hash) of the programs of the other properties, each with one choice of numbers', 
  'The tests evaluate most of this at run time, on non-const objects.',
  ['base/state.hpp', 'structs/layouts.hpp', 'structs/slice.hpp', 'structs/blocks.hpp', 'structs/zcurve.hpp', 'structs/views.hpp', 'extra/traverser.hpp', 'extra/planner.hpp', 'interop/traverser_iter.hpp', 'interop/planner_iter.hpp', 'structures/introspection/stride_along.hpp'],
  [('for_each_impl, for_sections, for_dims', 'extra/traverser.hpp'), ('traverser_iterator_t', 'interop/traverser_iter.hpp'), ('strict_offset_of, length', 'structs/views.hpp')], TY, OT)
P('C28', 'Headers stand alone and are portable: C++20 and C++23, GCC and Clang',
  'Each header can be included alone, repeatedly and in any number of translation units (it defines nothing that collides with the same definition of another one), as C++20 and as C++23, by GCC and by Clang, also with -fno-exceptions and -fno-rtti. '
  'Programs that are valid, and computations that are constant, are so in all of these configurations; documented misuse is rejected in all of them.',
  ['programs', 'configurations'], 'all headers except those for CUDA; samples (by hash) of the programs of the other properties, each in one configuration', 
  'The tests are built by one compiler with one language version, and include most headers after others.',
  ['base/utility.hpp', 'base/state.hpp', 'base/contain.hpp', 'extra/traverser.hpp', 'extra/planner.hpp', 'extra/mangle.hpp', 'interop/bag.hpp', 'interop/serialize_data.hpp', 'interop/tbb.hpp', 'interop/std_para.hpp', 'interop/omp.hpp'],
  [('include lists', 'extra/traverser.hpp'), ('include lists', 'interop/bag.hpp')], 'type checker of both compilers as the decision procedure: whole translation units accepted or rejected, and a query on the symbol table of the IR', OT)
