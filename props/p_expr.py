P('H01', 'Objects with equal fingerprints are equal',
  'The fingerprint of a value, expression node, operator or model is a function of its whole content and of nothing else: two objects that differ in any part that a user can observe (presence, offset, order, '
  'key, type, default value, option, filter) hash different byte sequences, the sequence hashed for one object is never that of another of the same kind (counts and presence flags come before what they govern), '
  'and objects of different kinds start from different salts.',
  ['inputs'], 'all fingerprinted types, all members of each, all operators and nodes that own a fingerprint, all parameters that become part of them',
  'A fingerprint that forgets a member merges two different expressions in every cache, visitor and common-subexpression table, and only for objects that agree in all the rest.',
  ['arolla/util/fingerprint.h', 'arolla/expr', 'arolla/expr/expr_node.cc', 'arolla/dense_array', 'arolla/array', 'arolla/decision_forest', 'arolla/qtype', 'arolla/memory', 'arolla/objects', 'arolla/sequence'],
  [('fingerprint traits', 'FingerprintHasherTraits<T>, T::ArollaFingerprint'), ('operators', 'constructors passing FingerprintHasher("salt") to ExprOperator'), ('nodes', 'arolla/expr/expr_node.cc'),
   ('forests', 'arolla/decision_forest/decision_forest.cc')],
  technique='information-flow analysis from members and parameters into the hasher, on the type-checked syntax trees',
  note='Members that are derived from others, and parameters that identify nothing by design, are listed by name with the reason. Hash quality (collisions of the 128-bit hash itself) is out of reach.')

P('C01', 'Cancellation stops every evaluation and runs each callback exactly once',
  'The first error status given to a cancellation context wins and is the one every observer reads; a registered callback runs exactly once when the context is cancelled (at once if it already was), outside the lock, '
  'and never after its subscription was dropped in time; nodes are freed exactly once. A scope guard makes its context (or none) current for the thread and leaving it restores the previous one. The evaluation loop runs '
  'operators in order, honours jumps, stops at the first error with that status and tests the current context after every operator; a cancelled evaluation ends with the context\'s status.',
  ['schedules', 'histories', 'inputs'], 'all interleavings of Cancel, Subscribe, dropped subscriptions and observers, all list shapes; all outcomes of every operator of a program',
  'Whether another thread cancels between the lock-free test and the critical section is a matter of nanoseconds; a lost or doubled callback shows only then.',
  ['arolla/util/cancellation.h', 'arolla/util/cancellation.cc', 'arolla/qexpr/bound_operators.cc', 'arolla/qexpr/eval_context.h'],
  [('cancellation context', 'arolla/util/cancellation.cc'), ('evaluation loop', 'arolla/qexpr/bound_operators.cc: RunBoundOperators'), ('thread-local context', 'CancellationContext::ScopeGuard')],
  technique='abstract interpretation over a symbolic heap with interference at lock acquisitions',
  note='Lists of up to three nodes and every position in them; other threads may do anything allowed between two critical sections. Programs of up to three operators with every jump between them. Callbacks and operators are '
       'opaque: that a long-running operator polls the context itself is not decided.')

P('E05', 'Dominator trees describe which nodes all paths pass through',
  'A control flow graph is created exactly if it is not empty, all its edges go to larger ids within the graph and every node but the entry has a predecessor; it keeps the edges in order and lists the predecessors in increasing order, repeated edges included. '
  'In its dominator tree the parent of each node is the nearest node that every path from the entry passes through, the depth is the distance to the entry and children are listed in increasing order. '
  'A node is reported to have an empty dominance frontier exactly if everything reachable from it is reachable only through it. Externalizing nodes removes their incoming edges, adds one from their dominator and keeps all other edges in order.',
  ['inputs'], 'all graphs of up to 5 nodes and a sample of those with 6 (thorough: all), all sets of externalized nodes up to 3 nodes',
  'The evaluator delays subexpressions by these trees; a wrong dominator shows only for particular shapes of diamonds, as a value that is used before it is computed.',
  ['arolla/algorithm/control_flow_graph.h', 'arolla/algorithm/control_flow_graph.cc'],
  [('graph', 'arolla/algorithm/control_flow_graph.cc: AcyclicCFG::Create'), ('dominators', 'arolla/algorithm/control_flow_graph.cc: DominatorTree'), ('derived', 'arolla/algorithm/control_flow_graph.cc: ExternalizeNodes, FindVerticesWithEmptyDominanceFrontier')],
  technique='abstract interpretation over an enumerated family of graph shapes',
  note='Ids out of range are symbolic intervals; the shapes are enumerated (small scope). Trusts the models of the standard containers and of StatusOr.')
