P('U01', 'Every task of a parallel run executes exactly once before the call returns',
  'Running a list of tasks with a maximum parallelism of at least one executes every task exactly once, on at most that many threads, '
  'and returns only after every thread it started has finished. Starting a single thread runs the given function exactly once on that thread, and the handle returned for '
  'it returns only after that thread has finished.',
  ['schedules', 'inputs'], 'all interleavings of the workers on the shared counter, all task counts (including 0) and all parallelism values >= 1',
  'A lost or doubled task needs a particular interleaving; the existing tests run a handful of schedules of one task list.',
  ['arolla/util/threading.cc', 'arolla/util/threading.h'],
  [('shared atomic task counter', 'arolla/util/threading.cc: ExecuteTasksInParallel'), ('join', 'arolla/util/threading.cc: StdThreading::StartThread')],
  technique='abstract interpretation (affine domain with interference) of the task runner',
  note='Decides the property for a symbolic number of tasks and threads under every interference on the shared counter. Trusts the models of '
       'std::atomic, std::vector, std::thread and std::function and assumes tasks do not throw.')

P('U02', 'Reference-counted objects are destroyed exactly once, never while in use',
  'An object managed by intrusive reference-counted smart pointers stays alive as long as some pointer refers to it and is destroyed exactly once when the last such pointer is destroyed, reassigned or reset. '
  'Copying, moving, assigning (including self-assignment), swapping and resetting such pointers keep the count equal to the number of owners. '
  'The destruction happens after all accesses made through other owners on other threads.',
  ['histories', 'schedules'], 'all sequences of pointer operations and all aliasing of their operands; all interleavings of count updates',
  'The tests cover a few operation sequences on one thread; ordering and lost-update bugs show only under particular interleavings, often only on weak memory.',
  ['arolla/util/refcount.h', 'arolla/util/refcount_ptr.h'],
  [('atomic counter and memory orders', 'arolla/util/refcount.h: Refcount'), ('ownership transfer', 'arolla/util/refcount_ptr.h: RefcountPtr')],
  technique='abstract interpretation over a symbolic heap (ownership typestate) + memory-order rule',
  note='Every smart-pointer operation is interpreted from every aliasing of operands and every abstract count; release/acquire obligations are '
       'decided from the memory-order arguments. Trusts the models of std::atomic, placement new and delete.')

P('U03', 'Array iterators obey the random-access iterator laws',
  'For a const iterator over an array-like container, every random-access operation (increment, decrement, offset, difference, comparison, indexing, dereference) refers to the element at the arithmetically corresponding position, '
  'in-place operations return the iterator they modified, and the ordering and difference of two iterators agree with those of their positions.',
  ['inputs'], 'all positions and offsets',
  'The tests try a few positions of a small array; the laws quantify over all positions and offsets, including ones near the ends.',
  ['arolla/util/iterator.h'], [('offset arithmetic', 'arolla/util/iterator.h: ConstArrayIterator')],
  technique='abstract interpretation in an affine-equality domain of witness expressions',
  note='Each iterator expression is evaluated abstractly for symbolic positions p, q and offset n and compared as an affine form with the law. '
       'Trusts the instantiation on one witness container.')

P('U05', 'Arguments excluded from lifting keep their position and identity',
  'When an operator is lifted over containers with some arguments marked as not to be lifted, each marked argument is taken from the captured call and each other argument from the lifted call, every one in its own position, '
  'for every subset of marked arguments and up to the documented limit of 64 arguments.',
  ['inputs'], 'all argument values; every subset of marked arguments up to four, selected ones of six and thirty-six',
  'The shuffling is done by recursive templates over a bit mask; the tests instantiate a handful of masks, mostly with one marked argument.',
  ['arolla/qexpr/lifting.h'],
  [('capturing and shuffling', 'arolla/qexpr/lifting.h: CaptureDontLift, CallShuffledArgsFn'), ('dropping on call', 'arolla/qexpr/lifting.h: CallOnLiftedArgsImpl')],
  technique='symbolic tracing of argument identity through instantiated variadic templates (value numbering)',
  note='Subsets beyond the instantiated ones are covered only as far as the templates are uniform in the argument count.')

P('U07', 'Overflow-checked arithmetic flags exactly the results that do not fit',
  'The overflow-checked addition, multiplication and absolute value helpers report an overflow (flag or error status) for exactly the inputs whose mathematical result does not fit the result type, for every combination of result and argument types, '
  'keep an overflow flag that an earlier step has set, return the exact result otherwise, and have no undefined behaviour themselves.',
  ['inputs'], 'all argument values of the instantiated type combinations',
  'Buffer sizes computed from untrusted shapes depend on it; the failing inputs are a handful of extremes per type combination.',
  ['arolla/util/overflow.h'],
  [('flag helpers', 'arolla/util/overflow.h: safe_add, safe_mul, safe_abs'), ('status helpers', 'arolla/util/overflow.h: SafeAdd, SafeMul, SafeAbs')],
  technique='value numbering with exact infinite-precision intervals against the definition',
  note='Instantiated for the type combinations in tu/overflow.cc. Trusts the model of the __builtin_*_overflow primitives.')

P('N01', 'Table, column and proto paths keep their segments, order and text',
  'Appending segments to table and column paths yields exactly the segments of the operands in order and leaves the operands unchanged; the full name, the size and id columns, the index marks and the access texts (field, map, array, proto extension) are the documented ones. '
  'Parsing the text of a path (of non-empty segment names that contain no slash and do not end in an index mark) gives the same path back, the root is the empty text or a single slash, one trailing slash is ignored and other texts not starting with a slash are an error. '
  'The parent index path of a table is its closest proper ancestor that is an index and that of a column its longest prefix ending in an index; a prefix is removed exactly when it is one. Paths are equal exactly when all their segments (name and index mark) are, '
  'ordered by a strict total order that agrees with equality. Each naming policy spells a path as documented, on error for paths it cannot spell, and is found by its name.',
  ['inputs'], 'all segment names; all index marks of paths of up to three or four segments; all texts of the grammar up to the bound',
  'Tables and columns are matched by these texts across generators, loaders and policies; the tests format a few typical paths and never the combinations of index marks, empty paths, prefixes and separators.',
  ['arolla/naming/table.cc', 'arolla/naming/table.h', 'arolla/naming/protopath_id.cc', 'arolla/naming/policy.cc'],
  [('paths and their order', 'arolla/naming/table.h: TablePath, ColumnPath, PathSegment'), ('text form', 'arolla/naming/protopath_id.cc: TablePathFromProtopathId, ColumnPathFromProtopathId'), ('policies', 'arolla/naming/policy.cc: PolicyImpl subclasses, GetPolicy')],
  technique='abstract interpretation with strings of opaque names (symbolic string domain) against the list of segments',
  note='Segment names are opaque: a result that looked inside one would be an unknown and reported. Paths have up to three or four segments. Trusts the models of the string functions of the standard library and Abseil.')

P('U04', 'Name and text helpers decide exactly the texts they document',
  'A text is an identifier exactly when it is a letter or underscore followed by letters, digits and underscores; a qualified identifier or an operator name exactly when it is one or more identifiers joined by single dots. '
  'Two texts are within one typo exactly when one insertion, deletion, substitution or swap of neighbours turns one into the other (or they are equal). A truncated text is the original when it fits and otherwise a prefix and an ellipsis of exactly the maximal length. '
  'Prefix tests, comma separators after the first element and container access texts are the documented ones. None of them reads outside its argument.',
  ['inputs'], 'all contents of texts of up to seven characters (each a symbol of one of the classes the helper can tell apart)',
  'Operator names guard registration and parsing, and the failing texts are particular mixtures of characters at particular positions; the tests list a few.',
  ['arolla/util/string.h', 'arolla/util/string.cc', 'arolla/util/operator_name.h'],
  [('identifiers', 'arolla/util/string.h: IsIdentifier, IsQualifiedIdentifier'), ('typos', 'arolla/util/string.cc: IsWithinOneTypo'), ('operator names', 'arolla/util/operator_name.h: IsOperatorName')],
  technique='abstract interpretation over strings of symbolic characters against the definition',
  note='Longer texts are covered only as far as the loops are uniform. Trusts the models of string_view and of the standard algorithms.')

P('U06', 'Searching, dispatching and printing helpers compute what they document',
  'Exponential search returns the first position whose element is not before the value, for every range the order divides, compares only elements of the range with the value (in this order) and reads nothing outside the range. '
  'The index dispatchers call the callback exactly with the constant equal to the index, for every index in range. The sorted keys of a map are all its keys, each once, in increasing order, in whatever order the map yields them. '
  'Split points are printed as the sizes between them: one size if all are equal, otherwise all in order, with only the documented number at either end around an ellipsis.',
  ['inputs'], 'all contents of ranges of up to 35 elements and every dividing position; all indices; all maps of up to four keys in every iteration order; all split points of up to eight sizes up to which sizes are equal, and of up to four sizes below four',
  'Binary search over row ids and dispatch over operator arities sit under the sparse arrays and codegen accessors; the failing inputs are particular lengths and positions (powers of two, the last element), which the tests sample.',
  ['arolla/util/algorithms.h', 'arolla/util/switch_index.h', 'arolla/util/map.h', 'arolla/jagged_shape/util/repr.cc'],
  [('search', 'arolla/util/algorithms.h: exp_lower_bound'), ('dispatch', 'arolla/util/switch_index.h: switch_index_32, switch_index_64, switch_index'), ('map keys', 'arolla/util/map.h: SortedMapKeys'), ('printing', 'arolla/jagged_shape/util/repr.cc: CompactSplitPointsAsSizesRepr')],
  technique='abstract interpretation with an uninterpreted order and symbolic sizes against the definition',
  note='Bounded by the lengths listed. Trusts the models of std::lower_bound, std::sort, the containers and the text streams.')

P('X01', 'Math kernels are accurate to the last few units',
  'Transcendental and statistical operators return results within a few units in the last place of the exact value, over the whole domain.',
  ['inputs'], 'all floating point inputs', 'Tests sample a handful of points.',
  ['arolla/qexpr/operators/math/math.h', 'arolla/qexpr/operators/math_extra/cdf.h'], [('kernels', 'arolla/qexpr/operators/math: log, expm1, sigmoid; math_extra: t-distribution CDF')],
  reason='the error of a floating point result against a real-valued function depends on the libm implementation and Boost series the kernels call, whose rounding no static argument in reach bounds; Q03 and Q07 decide the range, domain and case structure instead.')
P('X02', 'A decoded container equals the one that was encoded',
  'Decoding what was encoded gives values and expressions with the same fingerprints, for every value and expression the codecs accept.',
  ['inputs', 'histories'], 'all values, expressions and codec sets', 'Tests round-trip samples per codec.',
  ['arolla/serialization_base/encoder.h', 'arolla/serialization_base/decoder.h', 'arolla/serialization_codecs'], [('containers', 'arolla/serialization_base: EncoderDecoder'), ('codecs', 'arolla/serialization_codecs')],
  reason='equality of a value with its reconstruction composes the protobuf runtime, dozens of codecs and QType-specific construction through type-erased registries; protobuf classes are not generated in this build, so the codec sources do not even type-check here. E02 and H01 decide the error handling and fingerprint parts that are in the text.')
P('X03', 'Optimised and compiled expressions evaluate like the original',
  'For every expression and input, the prepared, optimised and compiled evaluation returns the value (or error) of direct evaluation of the expression.',
  ['inputs', 'configurations'], 'all expressions, inputs and optimizer sets', 'Tests sample expressions per rule.',
  ['arolla/expr/eval', 'arolla/expr/optimization'], [('preparation', 'arolla/expr/eval/prepare_expression.cc'), ('rules', 'arolla/expr/optimization/peephole_optimizations')],
  reason='the meaning of both sides of a rewrite is given by operator implementations found in registries at run time (many of them backend code behind templates), so rule soundness is an equality of run-time behaviours; the structural parts are decided by other properties (the E and Q series).')
P('X04', 'Compilation and evaluation caches are linearizable',
  'Concurrent readers and writers of the expression, model and operator caches see results of some sequential order.',
  ['schedules', 'histories'], 'all schedules of concurrent operations', 'Tests use single threads or short races.',
  ['arolla/util/lru_cache.h', 'arolla/expr/eval/thread_safe_model_executor.h'], [('cache', 'arolla/util/lru_cache.h: LruCache'), ('pool', 'arolla/expr/eval/thread_safe_model_executor.h')],
  reason='linearizability quantifies over interleavings of histories; a lock-discipline argument covers only that accesses are guarded (L01, L02 decide that and deadlock freedom), not that what each critical section does composes to a sequential history (U08 decides the sequential behaviour of the cache).')
P('X05', 'Parallel and batched evaluation stay within their time and memory cost',
  'Evaluation time grows linearly with rows and operators, buffers are reused and not reallocated per row.',
  ['inputs'], 'all batch sizes', 'Benchmarks sample sizes.',
  ['arolla/io', 'arolla/expr/eval'], [('evaluation', 'arolla/expr/eval/model_executor.h')],
  reason='a cost bound over run-time row counts and allocator behaviour is not decidable from the source; only measurement speaks to it.')

P('U08', 'The least recently used cache keeps, replaces and evicts as documented',
  'A lookup returns the value last put under an equal key unless it was evicted or cleared since; putting an existing key replaces its value and weight. After a put, entries are evicted in order of their last use (put or lookup), oldest first, exactly until the weights of the '
  'remaining entries fit the capacity or one entry remains; a put returns its value. Clearing empties the cache and its used capacity. The index and the list never disagree and no entry is used after its removal, for keys with equal hashes too.',
  ['histories'], 'all histories of up to four operations (five at the thorough tier) over keys, weights and capacities up to three, followed by every lookup after every number of evictions',
  'The caches hold compiled expressions; a drift between used capacity, list and index shows only histories later, and the tests run a few typical ones.',
  ['arolla/util/lru_cache.h'],
  [('put', 'arolla/util/lru_cache.h: LruCache::Put'), ('lookup', 'arolla/util/lru_cache.h: LruCache::LookupOrNull'), ('index', 'arolla/util/lru_cache.h: LruCache::IndexRecordHash, IndexRecordEq')],
  technique='abstract interpretation of operation histories against the definition, containers as node graphs',
  note='Longer histories are covered as far as states repeat up to renaming. Trusts the models of std::list and flat_hash_set; single thread (X04).')

P('U09', 'Binary searches return the lower and upper bound of any sorted array',
  'For every sorted array and value the lower bound is the number of elements less than the value and the upper bound the number of elements not greater than it; for a NaN value they are zero and the size of the array, whatever the size. '
  'The galloping search returns the lower bound. Nothing outside the array is read.',
  ['inputs'], 'all contents of sorted arrays of up to 17 elements and of sizes around powers of two up to 64 (129 at the thorough tier), and every position and multiplicity of the value (for larger sizes: none, one, or all of the rest equal)',
  'Bucketing and piecewise-linear curves depend on it; failures hide at sizes next to a power of two, at the last element and at NaN, and the tests sample arrays.',
  ['arolla/util/binary_search.h', 'arolla/util/binary_search.cc'],
  [('small arrays', 'arolla/util/binary_search.h: SmallLinearSearch'), ('binary search', 'arolla/util/binary_search.cc: BinarySearchT, FastBinarySearchT'), ('galloping', 'arolla/util/binary_search.h: GallopingLowerBound')],
  technique='abstract interpretation over elements known only by their order to the value, against the definition',
  note='Elements are opaque: only their comparison with the value is known, and for NaN it is unordered. Larger arrays are covered as far as the search is uniform in the size. Trusts the models of isnan and the bit scan built-in.')
