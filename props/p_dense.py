P('D01', 'Operations on ranges of bits act on exactly those bits',
  'Setting, counting and finding bits, reading and writing single bits, and combining two bit ranges that start at different offsets each compute exactly their per-bit definition for every word width, every start, every length and every relative offset: '
  'each bit of the range is handled, no bit outside it changes, no word that holds none of the bits is read or written, and empty ranges touch nothing.',
  ['inputs'], 'all bit contents, and all offsets and lengths up to several words',
  'Each function has special cases for the first and last word and for every combination of the offsets; the tests sample some of them and a read past the end is silent.',
  ['arolla/util/bits.h', 'arolla/util/algorithms.h'],
  [('bit helpers', 'arolla/util/bits.h: SetBitsInRange, CountOnes, GetOnes, FindLSBSetNonZero, ...'), ('shifted conjunction', 'arolla/util/algorithms.h: InplaceLogicalAndWithOffsets, CopyBits')],
  technique='abstract interpretation with words of symbolic bits over exactly sized memory',
  note='The contents are fully symbolic; lengths and offsets are enumerated over every alignment of the word boundaries up to several words (a small-scope bound on the length). Trusts the models of the compiler builtins for bit counting.')

P('D02', 'Presence bitmaps mean the same bits to every function that reads or builds them',
  'Every operation on presence bitmaps (counting, testing for all or none, single bits, words at an offset, iteration in groups and by ranges, intersection at an offset, and the builders) equals its per-bit definition at every offset and size, with the empty bitmap '
  'meaning that all are present. Callbacks see each element once and in order. Built bitmaps hold exactly the bits given, own the memory they show, and become the empty bitmap only if every bit is set. Nothing outside the bitmap is read.',
  ['inputs'], 'all bit contents, sizes, offsets and splits up to several words',
  'Bit offsets that straddle words and partly filled last words are sampled by the tests at a few sizes; an error marks missing values as present or reads past the buffer.',
  ['arolla/dense_array/bitmap.h', 'arolla/dense_array/bitmap.cc', 'arolla/memory/simple_buffer.h', 'arolla/memory/raw_buffer_factory.h'],
  [('readers', 'arolla/dense_array/bitmap.h: GetWordWithOffset, Iterate, IterateByGroups, CountBits'), ('builders', 'arolla/dense_array/bitmap.h: Builder, AlmostFullBuilder, RawBuilder'), ('set operations', 'arolla/dense_array/bitmap.cc: Intersect, AreAllBitsSet')],
  technique='abstract interpretation with words of symbolic bits over a heap of owned buffers',
  note='Contents symbolic; sizes, offsets and splits enumerated over every word alignment up to about three words. Trusts the models of shared ownership and of the allocation functions.')

P('B01', 'Buffers show exactly the values given to them and keep their memory alive',
  'A buffer built by any builder, inserter, copy or conversion shows exactly the values given, at their positions, for every size, also when the builder shrinks its memory. Slices and copies show the right part of the source and leave it unchanged. '
  'The handle of a buffer keeps the memory it shows alive; an unowned copy holds none; a deep copy of an unowned buffer owns a copy; an empty buffer counts as owned. New memory comes from the factory given. '
  'Equality compares sizes and all elements. Nothing outside the memory is read or written.',
  ['inputs', 'histories'], 'all contents, and all sizes, offsets and orders of calls up to a small bound and around the thresholds of the implementation',
  'Ownership errors and reads past the end are silent, and the shrinking and shared-zero paths start at sizes that few tests reach.',
  ['arolla/memory/simple_buffer.h', 'arolla/memory/raw_buffer_factory.h', 'arolla/util/raw_span.h'],
  [('builders', 'arolla/memory/simple_buffer.h: SimpleBuffer::Builder, Inserter, ReshuffleBuilder'), ('sharing', 'arolla/memory/simple_buffer.h: Slice, ShallowCopy, DeepCopy, is_owner'), ('views', 'arolla/util/raw_span.h: RawSpan')],
  technique='abstract interpretation over a heap of owned buffers with symbolic contents',
  note='Contents symbolic; sizes up to 6 (thorough: 9) with all offsets, and around the 1 KB and zero-buffer thresholds. One element type stands for all trivially destructible types. Trusts the models of shared ownership and of allocation.')

P('D03', 'Dense arrays show the same elements through every view and after every slice',
  'Element i of a dense array has the same value and presence through indexing, iteration, callbacks in order or by groups, counting, masks, slices (also of slices), and copies that are owned, unowned or without a bit offset, for every size and bit offset. '
  'The tests for full, all present or all missing agree with the elements. Arrays are equivalent exactly if they have the same size and the same elements, whatever the values under missing elements and the representation. '
  'Builders yield exactly the elements set, missing elsewhere, also when cut to a smaller size; a missing value sets nothing. Results own what they show; bit offsets stay below the word size; nothing outside the array is read.',
  ['inputs', 'histories'], 'all values and presence bits, and all sizes, bit offsets and slices around the word boundaries',
  'The bit offset of a slice interacts with each of these functions at every word boundary; an error makes a value appear or vanish for a few combinations only.',
  ['arolla/dense_array/dense_array.h', 'arolla/dense_array/bitmap.h', 'arolla/memory/simple_buffer.h', 'arolla/util/iterator.h'],
  [('views', 'arolla/dense_array/dense_array.h: DenseArray'), ('slices', 'arolla/dense_array/dense_array.h: Slice, ForceNoBitmapBitOffset'), ('builders', 'arolla/dense_array/dense_array.h: DenseArrayBuilder, CreateDenseArray'), ('equivalence', 'arolla/dense_array/dense_array.h: ArraysAreEquivalent')],
  technique='abstract interpretation with words of symbolic bits over a heap of owned buffers',
  note='Values and presence symbolic; sizes, offsets and slices enumerated around word boundaries up to 65 elements (thorough: every size to 70 and every offset). One element type stands for all plain types.')

P('D04', 'Pointwise operations over dense arrays act row by row',
  'Row i of the result of a pointwise operation over dense arrays is the function of row i of the arguments and is present exactly when all its required arguments are (and the function returned a present value), for every representation of presence, every size and every implementation '
  'that the library may choose for the function (optional, status or plain results, running on missing rows or not, one, two or more arguments, with or without bit offsets). The function is not called on missing rows unless allowed to, the error of a present row is returned (the first one), arrays of different sizes are an error. '
  'Iterating several arrays calls back every row of the range (or every present one) exactly once and in order, with its own values and presence. The arguments stay as they were, results are allocated by the given factory, nothing outside the arguments is read.',
  ['inputs'], 'all values and presence bits, all row functions, and all sizes, bit offsets and patterns of missing rows around the word boundaries',
  'Five implementations are chosen by the type of the function and by flags, and each treats words, offsets and the last partial word in its own way; tests compare a few arrays of one size.',
  ['arolla/dense_array/ops/dense_ops.h', 'arolla/dense_array/ops/universal_dense_op.h', 'arolla/dense_array/ops/util.h'],
  [('general implementation', 'arolla/dense_array/ops/universal_dense_op.h: UniversalDenseOp'), ('direct implementations', 'arolla/dense_array/ops/dense_ops.h: UnaryOpImpl, BinaryOpImpl, SimpleOpImpl'), ('iteration', 'arolla/dense_array/ops/util.h: DenseOpsUtil')],
  technique='abstract interpretation with words of symbolic bits and uninterpreted row functions',
  note='Values and most presence bits symbolic; sizes up to 65 around the word boundaries, bit offsets 0, 1 and 31 (thorough: more). Functions over plain element types; strings use the same implementation with another buffer.')

P('D05', 'Grouped operations give each group exactly its own rows, in order',
  'A grouped operation over dense arrays resets the accumulator of each complete group with the arguments of that group, gives it exactly the complete child rows of the group in increasing order (with their ids where asked for), and puts each result where it belongs: one per complete group, or one per '
  'complete row, taken after that row (partial) or after the group was finalised (full). This holds for groups given by split points, by a mapping and for a single group, with any pattern of missing rows, groups and entries of the mapping. '
  'All other results are missing; the error of an accumulator is returned; arrays whose sizes do not fit the edge are an error; nothing outside the arguments is read.',
  ['inputs'], 'all accumulators, values and presence bits, for an enumerated family of groupings, sizes and bit offsets around the word boundaries',
  'Three kinds of accumulators times three kinds of edges are separate code; the order of rows and the reuse of one accumulator for several groups show only for particular accumulators and patterns of missing rows.',
  ['arolla/dense_array/ops/dense_group_ops.h', 'arolla/dense_array/ops/util.h'],
  [('split points', 'arolla/dense_array/ops/dense_group_ops.h: ApplyWithSplitPoints'), ('mapping', 'arolla/dense_array/ops/dense_group_ops.h: ApplyWithMapping'), ('one group', 'arolla/dense_array/ops/dense_group_ops.h: Apply')],
  technique='abstract interpretation with words of symbolic bits and recording accumulators',
  note='The accumulators are uninterpreted: every call yields a term that records its history. Groupings are enumerated (up to 4 groups, up to 65 rows); the quick tier runs a fixed sample of the cases.')

P('D06', 'Edges mean the same grouping in every representation',
  'An edge between dense arrays maps each child row to at most one parent row. Split points are accepted exactly if they are full, start at 0 and are sorted; a mapping exactly if its present entries are within the parents (whatever is stored under missing entries); uniform groups exactly if the sizes '
  'are not negative and the number of children fits. The edge denotes just that mapping. Conversions keep it, and fail exactly if split points cannot express it. Two edges are equivalent exactly if they have the same sizes and the same mapping. A composition of edges denotes the composed mapping, '
  'is made of split points if all its parts are, and fails exactly if adjacent sizes differ or nothing is given. Nothing outside the arrays is read.',
  ['inputs'], 'all edges of up to 3 parents and 3 children (thorough: 4), and all chains of them up to an enumerated sample',
  'The conversions index one array with the entries of another; the algorithm of a composition depends on the kinds of adjacent edges, and the tests compose a few.',
  ['arolla/dense_array/edge.cc', 'arolla/dense_array/edge.h'],
  [('construction', 'arolla/dense_array/edge.cc: FromSplitPoints, FromMapping, FromUniformGroups'), ('conversion', 'arolla/dense_array/edge.cc: ToMappingEdge, ToSplitPointsEdge, IsEquivalentTo'), ('composition', 'arolla/dense_array/edge.cc: ComposeEdges')],
  technique='abstract interpretation over an enumerated family of edges',
  note='The code depends on entries only through comparisons, sums and indexing, so the weak orderings of a few entries cover its branches; sizes beyond 4 are a small-scope assumption.')
