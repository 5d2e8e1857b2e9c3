P('E01', 'Failed results, absent optionals and missed lookups are never dereferenced',
  'Every read of the value of a status-or-value result, an optional, a map lookup or a pointer that may be null happens only on paths on which it was tested to hold a value; in particular a malformed expression, '
  'a missing attribute, an unknown name or an operator of an unexpected kind gives an error status, never a crash or undefined behaviour. Debug-only assertions do not count as tests.',
  ['inputs', 'histories'], 'all functions of the C++ sources, all paths through each',
  'The unset case is reached only by an unusual combination of missing attributes, partial expressions and malformed protos that no test happens to build.',
  ['arolla/expr', 'arolla/qexpr', 'arolla/serialization_base', 'arolla/serialization_codecs', 'arolla/io', 'arolla/serving', 'arolla/decision_forest', 'arolla/qtype'],
  [('optional attributes', 'arolla/expr/expr_attributes.h: ExprAttributes'), ('node decoding', 'arolla/serialization_base/decoder.cc, arolla/serialization_codecs'),
   ('operator inference', 'arolla/expr/*.cc, arolla/expr/operators'), ('compilation', 'arolla/expr/eval')],
  technique='path-sensitive typestate over the type-checked syntax trees with function summaries',
  note='Conditions, aliases, all-of predicates and summaries of the tested callees are followed; facts are dropped at writes and unknown calls on non-const access. A table of documented class invariants, '
       'identified by function and expression, covers the reads whose proof lies in another function.')

P('E02', 'An error status is never dropped or turned into success',
  'Wherever a call returns a status (or a status-or-value), the status is returned, stored, tested or handed on on every path; after a test shows an error the function reports an error and not a success; '
  'no status goes out of scope or is overwritten unexamined.',
  ['inputs', 'histories'], 'all functions of the C++ sources, all paths through each, all failing callees',
  'A dropped status matters only when the callee fails, which takes an invalid argument or a rarely failing step on exactly that path.',
  ['arolla/expr', 'arolla/qexpr', 'arolla/serialization_base', 'arolla/serialization_codecs', 'arolla/io', 'arolla/serving', 'arolla/decision_forest', 'arolla/codegen'],
  [('propagation macros', 'arolla/util/status_macros_backport.h'), ('helpers', 'arolla/util/status.h')],
  technique='typestate of status values over the type-checked syntax trees',
  note='Two documented exceptions: the casting transformation tries an implicit cast and keeps the original node when none exists; the sequence map operator frees an argument after the error was recorded.')

P('E03', 'Evaluation stops at the first error and reports that error',
  'After an operator or bound expression leaves an error in the evaluation context no further operator runs with that context, the error is not cleared or replaced by another step\'s status, and the function that owns the context returns it. '
  'Every error and every jump request raises the signal that the evaluation loop tests.',
  ['inputs', 'histories'], 'all functions with an evaluation context, all failing steps, all loop iterations',
  'An operator that runs after a failed one works on uninitialised results only when a step fails in the middle of a compiled program or loop.',
  ['arolla/qexpr/eval_context.h', 'arolla/qexpr/bound_operators.cc', 'arolla/qexpr/simple_executable.cc', 'arolla/qexpr/operators.cc', 'arolla/expr/eval', 'arolla/serving'],
  [('evaluation loop', 'arolla/qexpr/bound_operators.cc'), ('loops and maps', 'arolla/expr/eval/compile_while_operator.cc, arolla/expr/eval/extensions'), ('model executor', 'arolla/expr/eval/model_executor.h')],
  technique='typestate of the evaluation context over the type-checked syntax trees',
  note='One documented exception: the literals of a mapped scalar program are initialised once per scratch frame; copying literals does not fail.')

P('E04', 'Combining statuses keeps the first error; structured errors keep their parts',
  'The helpers that combine statuses and status-or-values return the first error in argument order, exactly the values in order when nothing failed, and call the wrapped function exactly once and only when nothing failed, '
  'whatever the number of arguments. Attaching a cause, a payload, a note, a source location or a new message to an error keeps its code and every part that is not replaced, keeps the original error as the cause where documented, '
  'leaves an OK status OK, and what is read back is what was attached.',
  ['inputs'], 'all patterns of failed arguments of the combining helpers; all forms of structured errors (payload and cause absent, empty, present)',
  'Which of two errors wins, what survives a second attachment and the variant for more than thirty arguments show only when several things fail at once.',
  ['arolla/util/status.h', 'arolla/util/status.cc'],
  [('combining', 'arolla/util/status.h: CheckInputStatus, UnStatusCaller, LiftStatusUp, FirstErrorStatus'), ('structured errors', 'arolla/util/status.cc: WithCause, WithPayload, WithNote, WithSourceLocation, WithUpdatedMessage')],
  technique='abstract interpretation of the type-checked sources over symbolic statuses',
  note='Statuses are (code, message, payloads, locations); the token that carries a structured error inside a payload and its lookup are taken as an exact pair. Numbers of arguments are bounded (collections up to four elements).')
