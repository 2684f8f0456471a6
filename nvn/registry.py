"""property id -> how its obligations are produced"""
from .core import Prop
from .props import layout, trav, zcurve, state, proto, bag, static, sig, reject, short, iter, plan, par, ser, intro, mangle, cuda, plain, const, unit

PROPS = {p.id: p for p in [
    Prop('C01', 'offset(structure, complete state) has the normal form of the documented address polynomial, through every access form', layout.mk_base, minimum=70),
    Prop('C02', 'get_size/get_length have the normal form of the documented size', layout.mk_size, minimum=55),
    Prop('C03', 'offset/length of a slicing view equals the documented index mapping substituted into the underlying structure', layout.mk_slices, minimum=300),
    Prop('C04', 'offset/length/dimension order of fix, rename, hoist, reorder, join, bcast, vector equal the model', layout.mk_names, minimum=375),
    Prop('C05', 'offset/length/size of blocking views equal the documented block decomposition', layout.mk_blocks, minimum=750),
    Prop('C06', 'the index of every merged dimension has the normal form of the Z-order decoding of the curve position', zcurve.mk, minimum=25),
    Prop('C07', 'offset/length/size of every two-view stack equal the composition of the single-view models', layout.mk_stacks, minimum=2000),
    Prop('C08', 'structures whose numbers are static (lit) have the same offsets, sizes and lengths as with run-time numbers, and are constants', static.mk, minimum=1800),
    Prop('C09', 'length availability and length-through-state agree with the model', layout.mk_lengths, minimum=200),
    Prop('C10', 'the signature and the traits derived from it equal the dimension tree of the model', sig.mk, minimum=500),
    Prop('C11', 'each forbidden program does not compile, while its minimally different permitted twin does', reject.mk, minimum=110),
    Prop('C12', 'every state operation equals the corresponding operation on a finite map from tags to numbers', state.mk, minimum=480),
    Prop('C13', 'every grouping of a proto-structure chain has the offsets, sizes and lengths of the left-to-right application', proto.mk, minimum=1400),
    Prop('C14', 'element addresses of bags are base + offset; allocation/release events equal those of the ownership model; misuse is rejected', bag.mk, minimum=360),
    Prop('C15', 'the effect sequence of a traversal equals the nested loops over the ordered structure', trav.mk_foreach, minimum=75),
    Prop('C16', 'the effect sequence of for_dims/for_sections/union traversals equals the nested loops over the chosen dimensions', trav.mk_dims, minimum=37),
    Prop('C17', 'iterating, indexing, slicing or splitting the range of a traverser has the effects of the nested loops over the same indices', iter.mk, minimum=700),
    Prop('C18', 'executing a planner has the effects of the nested loops with its sections and endings at the documented depth', plan.mk, minimum=1000),
    Prop('C19', 'each parallel helper has the effects of the nested loops, part by part; the output of a reduction is shared only between parts that write different elements', par.mk, minimum=450),
    Prop('C20', 'serializing performs one write per element and one newline in traversal order; deserializing one store per element', ser.mk, minimum=800, elements=False),
    Prop('C21', 'offset_along/stride_along have the normal form of the change of the offset between two positions of that dimension, and are offered only for dimensions there are', intro.mk_along, minimum=1400),
    Prop('C22', 'lower_bound_along/lower_bound_at have the normal form of the smallest contribution of the positions considered and of where it is', intro.mk_lower, minimum=1900),
    Prop('C23', 'the mangled text, folded by the compiler and compiled back, denotes the very type and value that was mangled', mangle.mk, minimum=600, named=False),
    Prop('C24', 'the effects of one CUDA thread are those of the nested loops with its coordinates fixed; the striped layout keeps its documented guarantees', cuda.mk, minimum=650),
    Prop('C25', 'every structure, proto-structure, state, traverser and container type is a plain value of exactly the size of its run-time numbers', plain.mk, minimum=1700),
    Prop('C26', 'shortcuts and conversions have the offsets, sizes, lengths and dimension order of the structure they abbreviate', short.mk, minimum=500),
    Prop('C27', 'the program of each obligation of the other properties, its structures const, is a constant expression for numbers within the documented limits', const.mk, minimum=4500, named=False, elements=False),
    Prop('C28', 'every header alone, and a sample of the programs of the other properties, is accepted (or rejected) by GCC and Clang as C++20 and as C++23; no definition is emitted by every translation unit', unit.mk, minimum=300, named=False, elements=False),
]}
