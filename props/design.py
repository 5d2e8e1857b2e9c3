D = {}
D['C01'] = '''`tu/cancellation.cc` textually includes `cancellation.cc` and `bound_operators.cc`. Every operation of the context is interpreted over all shapes of the callback list (0-2 nodes
plus the dropped one in every position) and, at each lock acquisition, over every state another thread can have left (interference). Oracle: an event log (status set, callback run, node freed, lock state) against the
rule stated in the property. The evaluation loop is interpreted for up to 3 operators with every combination of jump target, error and cancellation.
Bounds: list shapes up to 2 other nodes (the operations only touch neighbours) and 3 operators; both are small-scope bounds, the interleavings at lock granularity are complete.'''
D['E01'] = '''Path-sensitive validity typestate over all functions of the library: a dereference of a StatusOr, optional, lookup iterator, downcast result or maybe-null pointer needs a dominating test, followed through local predicates,
callees that return OK only after testing, and macros. Dereferences whose justification is not a test are in a table of named invariants (one line of reason each); anything else is a violation. DCHECK does not count.'''
D['E02'] = '''Status typestate over all functions: results of calls are examined, returned or handed on; nothing is overwritten or dropped unexamined; on a path where a status is known bad no success is returned; the branch of a propagation macro uses the
error it caught. Two documented exceptions are in a table.'''
D['E03'] = '''Typestate of each `EvaluationContext`: after a call that can leave an error, no other operator runs with it and no owner returns success before the status is tested; the flag the loop tests is set by every error and every jump (`set_status`, `set_requested_jump`).'''
D['E04'] = '''`tu/status.cc` instantiates every helper; the bodies are interpreted with distinct named errors in every subset of the arguments (and both the fold and the array variant of the caller) and with every form of structured error. Strings are sequences of pieces, moved-from strings, statuses and payloads are poisoned, and `SetPayload`/`ForEachPayload` keep the payload list of a status. Cost: 5 s.'''
D['G01'] = '''Interprocedural taint over the generators (functions evaluated per argument kind to a fixpoint): sets and what derives from their order, `id`, `hash`, time, random, environment must not reach rendered text, files or generator results except through an injective sort. Templates are parsed: loops and joins over attributes of unordered kind need a sort filter.'''
D['G02'] = '''For each class with an equality: intersection over accepting paths of `__eq__` of the attributes known equal, closed under what the constructor derives from them, must cover what methods, `__hash__` and `__lt__` read.'''
D['G03'] = '''Abstract evaluation of `_cpp_getter_name` over a symbolic name plus an element-by-element comparison of the keyword set with [lex.key]; provenance of every member name emitted by the element classes.'''
D['G04'] = '''Every method of every path-element class is evaluated to string templates with holes; the emitted read determines the kind, and presence test, write, mutable access, table path and canonical text must be those of the kind over the same holes.'''
D['G05'] = '''The emitted C++ is evaluated as templates, parsed into statements and its paths enumerated with every guarded access split into found and missing; assignments, pushes, loops and variables are matched per path against the rule of the output kind.'''
D['H01'] = '''Information flow into `FingerprintHasher`, three rules (members reach the hasher without loss; conditional or repeated content is announced before; constructor parameters that become part of an object reach its fingerprint under a salt of its own). Found and repaired seven real collisions.'''
D['L01'] = '''Lock-set dataflow: members annotated or observed as guarded are accessed only under their mutex on the same object; aliases, iterators, references and helpers that rely on the caller are followed. Found the unlocked reads in `codegen/expr/types.cc`.'''
D['L02'] = '''The same dataflow records what runs under each lock, transitively over the call graph (virtual calls go to all overriders): no cycle in the order, no re-acquisition, release on all paths, no callback or foreign destructor.'''
D['R01'] = '''Typestate of guarded maps: insertion only when absence was established in the same critical section, or by an insertion that keeps the old entry and whose outcome is examined. A table names the functions that replace by design. Found the check-then-act race of `ExprOperatorRegistry::Register`.'''
D['Q01'] = '''Relational value numbering, see `tu/operators.cc` group cmp_. Bounds: none on values (partition of the order relation of two floats incl. unordered; integer classes).'''
D['Q02'] = '''Group int_: polynomials modulo 2^32 / 2^64 and interval proofs that no signed operation of the repository can overflow, divide by zero or divide the minimum by -1.'''
D['Q03'] = '''Group flt_: uninterpreted IEEE operations indexed by width. A different function, width or argument order has another value number; numerical error inside libm is out of scope.'''
D['Q04'] = '''Group opt_ (`tu/optional.cc`): every combination of presence; the value of a missing argument is a distinct symbol.'''
D['Q05'] = '''Group cast_ (`tu/casts.cc`): every pair of types, with exact neighbour arithmetic at the range boundaries.'''
D['Q06'] = '''Group bit_: canonical truth tables over opaque words, width-tagged population counts.'''
D['Q07'] = '''Group cdf_ (`tu/cdf.cc`): domain tests and parameter order; the boost quantile itself is uninterpreted.'''
D['U01'] = '''Abstract interpretation with symbolic task count and parallelism and interference at every atomic step.'''
D['U02'] = '''Abstract interpretation over a symbolic heap: all aliasings of two pointers, any number of outside owners; memory orders of the updates are checked too.'''
D['U03'] = '''Affine evaluation of every iterator operator over symbolic positions against the position algebra.'''
D['U05'] = '''Value numbering of the instantiated variadic templates for every subset of up to four arguments and chosen subsets of 6 and 36; larger arities up to 64 are checked to instantiate. Bound: arities.'''
D['U07'] = '''Value numbering with exact infinite-precision results partitioned by the result type's range.'''
D['M01'] = '''`tu/frame.cc` textually includes `frame.cc` and instantiates the layout templates for nine kinds of types (trivial, constructed, destroyed, both, odd-sized, 16-aligned). `AddSlot`, `AddSubFrame`, `Build`, the initialise and destroy functions, the frame
pointers and `MemoryAllocation` are interpreted with symbolic addresses and offsets (`lib/rawmem.py`, `lib/containers.py`); existing size 16q+r for every r, alignments 1..16, every shape of the initializer tables with up to two types, up to 3 blocks.
Oracle: arithmetic of alignment and an event log of constructions and destructions. Each operation preserves the layout invariant from any state, so sequences of any length are covered.'''
D['V01'] = '''`tu/value.cc` includes `typed_value.cc`, `typed_ref.cc`, `typed_slot.cc` and `qtype.cc` and uses every operation for one witness type. The operations are interpreted over a symbolic heap: counts against handles for every shape of two handles and
0-2 other owners, alignments 1..16 of the storage with a symbolic address, three types (two of them share their C++ type) for every typed access, up to three fields. Oracle: the log of allocation, construction, copy, destruction and
release events. Statuses are modelled by `lib/statuses.py`.'''

D['D01'] = '''`tu/bits.cc` instantiates the helpers for 32- and 64-bit words. `lib/bitvec.py` gives the interpreter a domain of words whose bits are boolean functions of input bits; memory is a region of the exact size (or exact less the words that the
range does not touch), so a stray word is an event. Each enumerated case (starts, ends, relative offsets around every word boundary; some 19000 cases at the quick tier) is one abstract run over all contents. Oracle: the per-bit definition. Out-of-range shifts
and scans of a zero word are events too.'''
D['D02'] = '''As D01, with `lib/rawbuf.py` for the heap: buffers come from factories with an owner token, a handle keeps them alive, and access to released or foreign memory is an event. All functions of `bitmap.h` and `bitmap.cc` and the buffers they use are
interpreted from source; callbacks log what they are given. Oracle: per-bit definitions, order and completeness of the callback log.'''

D['B01'] = '''`tu/dense.cc` uses every operation of buffers, builders and inserters; `lib/arrays.py` runs them abstractly over regions of the exact size with symbolic words and owner tokens. Oracle: the list of values given per position, the owner of the memory
shown against the handle of the result, the factory of each allocation. Some 2300 cases in 2 s.'''
D['D03'] = '''As B01 for `dense_array.h`, with symbolic presence bits (`lib/bitvec.py`); optional values and `std::optional` are modelled, iterators and bitmaps interpreted from source. Oracle: the elements (value, presence) of the source at the shifted positions, the log of
callbacks, ownership of values and bitmap, the invariants of the representation (offset below 32, bitmap of the exact length). Some 6300 cases in 12 s.'''

D['N01'] = '''`tu/naming.cc` includes the sources of `arolla/naming`. `lib/strs.py` gives the interpreter a domain of strings as sequences of constant characters and opaque names; operations that would have to look inside a name are undecided, comparisons of names are split. Every mix of index
marks for paths of up to three or four segments, every pair for the order, every text of the grammar for parsing. Oracle: the list of (name, mark) pairs and the documented spelling. Some 6900 cases in 10 s.'''
D['U04'] = '''The same string domain with texts of symbolic characters (only their class or their equality to each other is known; every pattern is enumerated). Oracle: the regular grammar, the definition of the edit distance, the arithmetic of truncation; a read outside the
text is an event. Some 21000 cases in 5 s.'''

D['D04'] = '''`tu/pointwise.cc` instantiates an operation for every implementation the library can choose, with opaque row functions (an application is a fresh word named by the rows it was given, and an event). The interpretation of D03 runs beneath; presence is fully symbolic where the code does
not branch on it and symbolic in a few rows around the word boundaries elsewhere. Oracle: the function of the rows, the conjunction of the presence bits, the first error of a present row. Some 5300 cases in 50 s.'''

D['D05'] = '''`tu/groups.cc` instantiates `DenseGroupOps` for accumulators of the three kinds whose calls are uninterpreted: each returns a fresh word named by the term it stands for (`result(add(reset(p0),c1))`), so the term of a result tells which calls, with which rows and in which order, led to it.
The interpretation of D04 runs beneath, with values symbolic and presence bits symbolic in chosen rows. Oracle: the term for the complete rows of the group, in order, from the last reset on (what the accumulator held before a reset is ignored). About 3300 cases of 12000 in the quick tier (40 s), all in the thorough one.'''
D['D06'] = '''`tu/edges.cc` calls each function of `edge.cc`; the interpretation runs over exactly sized buffers whose entries are symbolic where the code only compares or moves them (ranges below, inside and above the legal ones) and enumerated where it indexes with them, with all masks, bit offsets 0 and 31 and junk under missing entries. The result is decoded to the mapping it
denotes, after checking that it is an edge at all (sorted, in range, owned), and compared with the definition. About 11000 cases in 35 s.'''

D['E05'] = '''`tu/graph.cc` calls the public interface of `control_flow_graph.h`. The interpreter runs the code over every shape of graph with up to 5 nodes (a sample of those with 6; the thorough tier all), and `Create` over all lists of up to two edges per node whose ids are in range or symbolic on either side of it.
Oracle: the definition (d dominates v if v cannot be reached when d is removed; the dominance frontier as in the header; the edges of the externalized graph). Indexing a vector outside its elements is certain on the path that does it, and is reported. Small scope: a fault that needs 7 nodes is not seen. About 4400 cases in 28 s.'''
D['U06'] = '''`tu/helpers.cc` instantiates the templates. The search runs over opaque elements with an uninterpreted order that divides the range at each position in turn (every content of the range is one of these), and once more over symbolic integers with the default order;
reads and comparisons outside the range are events. Maps hold symbolic, pairwise ordered keys in every iteration order. Split points are symbolic sums of symbolic sizes, equal or not; texts are lists of pieces. Cost: under a second.'''
D['U08'] = '''`tu/cache.cc` instantiates the cache for opaque keys and values. The constructor and the operations are interpreted over histories enumerated up to renaming of keys; a list is a sequence of nodes and iterators point to nodes, a hash set calls the interpreted hash and equality functors
(colliding in pairs) for every stored element whenever it may rehash, so a stale index entry is an event. After each history every key is looked up in copies of the state, after 0 to capacity more puts, which reveals the order. Oracle: a list of triples. Cost: 25 s.'''
D['U09'] = '''`tu/search.cc` includes `binary_search.cc`. Elements are tokens of which only the relation to the value is known (less, equal, greater by position, or unordered for NaN), so each case stands for all arrays of the shape; generic lambdas and the dispatch over sizes are followed through their
instances. Reading a position outside the array is a fault. Oracle: the counts of the case. Cost: 12 s.'''
