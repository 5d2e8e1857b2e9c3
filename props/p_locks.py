P('L01', 'Data shared between threads is only accessed under its mutex',
  'Every member that a class protects with a mutex (registries, caches, pools, cancellation state) is read or written only while that mutex of the same object is held, exclusively for writes; '
  'references and iterators into protected data are not used after the lock is released; a helper that relies on its caller holding the lock is only called with it.',
  ['schedules', 'histories'], 'all interleavings of all calls of the classes that own a mutex and of functions with a static mutex',
  'A data race shows only under a particular interleaving; the tests are mostly single threaded.',
  ['arolla/qtype', 'arolla/qexpr', 'arolla/expr', 'arolla/serialization_codecs', 'arolla/io', 'arolla/util'],
  [('type maps', 'arolla/codegen/expr/types.cc'), ('operator registries', 'arolla/qexpr/operators.cc, arolla/expr/registered_expr_operator.cc'),
   ('type registries', 'arolla/qtype/tuple_qtype.cc, arolla/qtype/slice_qtype.cc, arolla/qtype/dict/dict_types.cc'), ('shared pointer', 'arolla/util/thread_safe_shared_ptr.h'), ('cancellation', 'arolla/util/cancellation.cc')],
  technique='lock-set dataflow over the type-checked syntax trees',
  note='Protected data: annotated members and members written under the mutex of their class. Aliases, iterators, references, lambdas and helpers are followed; pointers that leave through the result of a lambda are not.')

P('L02', 'Locks nest in one order and nothing foreign runs under a lock',
  'No execution can deadlock on the mutexes of the library: they are acquired in an order free of cycles, none is acquired again by its holder, every explicitly locked mutex is released on all paths, '
  'and no stored callback and no destructor of a caller\'s object runs while a mutex is held.',
  ['schedules', 'histories'], 'all functions that hold a mutex and everything they may call, all interleavings',
  'A deadlock takes two threads in opposite order, or a callback that re-enters the object that calls it.',
  ['arolla/qtype', 'arolla/qexpr', 'arolla/expr', 'arolla/serialization_codecs', 'arolla/io', 'arolla/util'],
  [('operator registry', 'arolla/expr/registered_expr_operator.cc'), ('caches', 'arolla/expr/eval/executable_builder.h, arolla/util/lru_cache.h'), ('shared pointer', 'arolla/util/thread_safe_shared_ptr.h'), ('cancellation', 'arolla/util/cancellation.cc')],
  technique='lock-set dataflow and acquisition order over the call graph',
  note='Virtual calls go to all overriders. One documented callback under a lock: the loader factory of DynamicDelegatingInputLoader.')

P('R01', 'Registries never lose, replace or duplicate an entry',
  'The process-wide registries (expression operators, evaluation operators and their metadata, types, codecs, dictionary and tuple types) keep what was registered first: a second registration of the same key fails and leaves the first entry in place, '
  'also when two threads register at once; an interning lookup returns the entry of the registry, so equal keys give the identical object. Replacement and removal happen only in the functions that document it.',
  ['histories', 'schedules'], 'all orders and interleavings of registrations and lookups',
  'Tests register each name once; losing an entry takes a duplicate, a race between check and insertion, or the rehashing of a table.',
  ['arolla/qtype', 'arolla/qexpr', 'arolla/expr', 'arolla/serialization_codecs', 'arolla/codegen/expr'],
  [('expression operators', 'arolla/expr/registered_expr_operator.cc'), ('evaluation operators', 'arolla/qexpr/operators.cc, arolla/qexpr/operator_metadata.cc'),
   ('types', 'arolla/qtype/tuple_qtype.cc, arolla/qtype/dict/dict_types.cc, arolla/qexpr/qexpr_operator_signature.cc'), ('codecs', 'arolla/serialization_codecs/registry.cc')],
  technique='typestate of the guarded maps over the type-checked syntax trees',
  note='Insertions, look-ups, their outcomes and the lock under which they were made are tracked through aliases; a table names the functions that replace or remove by design.')
