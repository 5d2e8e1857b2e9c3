P('G01', 'Generated sources do not depend on set order, hashing, time or environment',
  'The code generators of input loaders and slot listeners emit the same text for the same accessors and flags in every run: nothing they write or return depends on the iteration order of a set, '
  'on hash or identity values, on the time, on random numbers or on the environment; collections without an order are sorted by a total key before they reach the output.',
  ['inputs', 'histories'], 'all accessor lists, all hash seeds and runs',
  'An order dependence shows only when two runs happen to iterate a set differently (string hashing is seeded per process); a test compares with one run.',
  ['arolla/codegen/io/accessors.py', 'arolla/codegen/io/protopath.py', 'arolla/codegen/io/multi_protopath.py', 'arolla/codegen/io/input_loader_lib.py', 'arolla/codegen/io/cpp.py'],
  [('sorted, deduplicated accessors and includes', 'arolla/codegen/io/accessors.py: AccessorsList'), ('rendering', 'arolla/codegen/io/input_loader_lib.py'),
   ('nested protopaths', 'arolla/codegen/io/multi_protopath.py')],
  technique='order-taint dataflow over the Python syntax trees and templates',
  note='Interprocedural taint of set-derived order and of hash/identity/time/environment values up to rendered text, files and results of generator functions. '
       'A sort clears the taint only when its key is injective on the elements. Dictionaries count as ordered (insertion order).')

P('G02', 'Equal generator objects are interchangeable',
  'Two objects of the code generators (accessors, names, includes, path elements, path-tree nodes) that compare equal have the same kind and the same value of every attribute that the generated code or a later comparison depends on; '
  'equal objects have equal hashes; an order used for sorting distinguishes exactly the objects that differ.',
  ['inputs'], 'all pairs of objects of every generator class with an equality',
  'Duplicate accessors are dropped and nested paths are merged by equality; a test compares a few objects that differ in one obvious attribute.',
  ['arolla/codegen/io/accessors.py', 'arolla/codegen/io/protopath.py', 'arolla/codegen/io/multi_protopath.py', 'arolla/codegen/io/cpp.py'],
  [('accessor equality', 'arolla/codegen/io/accessors.py: Accessor.__eq__; protopath.py: ProtopathAccessor.__eq__'), ('node identity', 'arolla/codegen/io/multi_protopath.py: SingleValueProtopathTreeNode')],
  technique='implied-fact analysis of __eq__ closed under constructor dataflow',
  note='For each class: the attributes implied equal by every accepting path of __eq__, closed under the attributes the constructor computes from them, must cover '
       'the attributes read by its methods, __hash__ and __lt__.')

P('G03', 'Protobuf accessors use the getter names the protobuf compiler generates',
  'The member name emitted for a protobuf field is the lower-cased field name, followed by an underscore exactly when that lower-cased name is a C++20 keyword (or alternative token); '
  'every read, presence test, write and iteration of a field, for every kind of path element, uses this name.',
  ['inputs'], 'all field names, every keyword, every kind of path element',
  'The tests use a handful of field names, none of them most keywords.',
  ['arolla/codegen/io/protopath.py'], [('getter name', 'arolla/codegen/io/protopath.py: _cpp_getter_name, _CPP_KEYWORDS')],
  technique='abstract evaluation of string templates + set comparison with the C++20 keywords',
  note='The naming function is evaluated on a symbolic field name on both branches; the keyword set is compared with the standard; holes after `.`, `set_`, `mutable_` are traced to it.')

P('G04', 'Presence test, read, write and column name of a path element agree',
  'For each kind of protopath element (field, index, map key, map keys/values, repeated field, size, extension, pointer, struct member), the emitted read, presence test, write, mutable access, loop, size and '
  'table column refer to the same field and key. The presence test is true only when the emitted read is valid; it may be skipped only where reading (or creating, for writes) a missing value is harmless. Maps are iterated in sorted key order. '
  'The canonical text of an element parses back to the same element.',
  ['inputs'], 'all field names, keys, extensions and variables; mutable and const access; final and intermediate elements',
  'The tests compare emitted text for particular paths; a wrong guard or name of a rarely combined element compiles and passes.',
  ['arolla/codegen/io/protopath.py', 'arolla/codegen/io/table.py'],
  [('element classes', 'arolla/codegen/io/protopath.py: SingleValueElement and MultipleValueElement implementations'), ('column names', 'arolla/codegen/io/table.py')],
  technique='abstract evaluation of string templates, sibling-method agreement per access kind',
  note='Each method is evaluated on all its branches with holes for names, keys and variables; the read determines the access kind and with it the texts required of the other methods. '
       'Trusts the stated semantics of protobuf getters, AROLLA_PROTO3_COMPATIBLE_HAS and SortedMapKeys.')

P('G05', 'Generated accessors set their output exactly as presence demands',
  'In the C++ emitted for a protopath, every guard precedes the access it protects and tests the same object; on every path through the emitted code a missing value leaves an optional absent, a scalar at its default, a size zero and an array '
  'with one missing item at that position, and a found value is stored present, converted, exactly once. Nested loops thread their variables, counting loops and filling loops are opened and closed alike, '
  'mutable accessors write only present inputs, advance the index once per position, and reject inputs of another size.',
  ['inputs'], 'all protopaths: any number of elements and nested repeated fields, all element kinds, const and mutable, wildcard or not',
  'The tests compare text or compiled results for particular paths; the emitted control flow must be right for every composition and every pattern of missing submessages.',
  ['arolla/codegen/io/protopath.py', 'arolla/codegen/io/array_generator.py'],
  [('path text', 'arolla/codegen/io/protopath.py: _SingleValueElementsList.set_path_to_field, _SingleMultiElemPath'), ('accessors', 'arolla/codegen/io/protopath.py: Protopath'),
   ('array builder text', 'arolla/codegen/io/array_generator.py: _DenseArrayCodeGenerator')],
  technique='abstract evaluation of string templates + path enumeration of the emitted C++ statements',
  note='Templates are evaluated with holes on all branches, for 1-3 elements and an arbitrary iteration; the emitted text is parsed into statements and each guarded access split into found and missing. '
       'One known finding: the DenseArray builder drops the name prefix once (text pinned by a test).')
