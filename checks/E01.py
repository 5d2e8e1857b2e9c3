"""A failed result, an absent optional or a missed lookup is never dereferenced."""
import os
import re
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import facts
import flow
import guard
import report
from tree import CALLS, callee_short, short, walk

RULE = ('path-sensitive validity typestate over every function of the library: a StatusOr, an optional, the iterator of a lookup, the '
        'result of a downcast or of a function that can return null may be dereferenced only where every path from the function entry '
        'has established that it holds a value (own tests, tests of callees that return OK/true only then, construction from a value)')

# Dereferences whose justification is not a test on the path. Each entry names
# the function, the dereferenced expression and the invariant that covers it.
INVARIANTS = {
    ('arolla::serialization_base::Encoder::EncodeLiteralNode', 'expr_node.qvalue()'):
        'called for literal nodes only (switch in EncodeExprNode); a literal node always has a value',
    ('arolla::MakeSequenceQValue', 'move(result)'):
        'the value is built with the very type GetSequenceQType made for it',
    ('arolla::expr::eval_internal::ExprDominatorTree::AddNodeAlias', 'old_it'): 'every node of the tree was registered by Build',
    ('arolla::expr::eval_internal::ExprDominatorTree::GetNodeId', 'it'): 'every node of the tree was registered by Build or AddNodeAlias',
    ('arolla::FrameIterator::Create', 'copier.row_count()'): 'a copier is created only together with its first mapping, which sets the row count',
    ('arolla::FrameIterator::Create', 'row_count'): 'as above: the first disjunct of the test never holds',
    ('arolla::expr::eval_internal::MoveNonArrayLiteralArgumentsIntoOp', 'dep.qvalue()'): 'guarded by the local predicate can_be_embedded, which requires a value',
    ('arolla::expr::eval_internal::CompilePackedSeqMapOperator', 'seq_size'): 'the loop before it runs at least once: seq.map has at least one sequence argument',
    ('arolla::expr::PostOrder::PostOrder', 'node_indices.find(dep.fingerprint())'): 'the first traversal stored an index for every reachable node',
    ('arolla::codegen::NonOptionalCppLiteralRepr', 'value.As()'): 'under the test that the type of the value is the type of As',
    ('arolla::expr_operators::CoreReduceTupleOperator::InferAttributes', 'op_attr.qvalue()'): 'CheckArgs rejects an operator argument that is no literal',
    ('arolla::expr_operators::CoreMapTupleOperator::ToLowerLevel', 'op_attr.qvalue()'): 'the output type is known only if InferAttributes saw the literal',
    ('arolla::ForestModel::HandlePlainSumExpression', 'res_tuple_key_'): 'ForestModel::Initialize handles the model without submodels before',
    ('arolla::ForestModel::HandleExpressionWithoutBags', 'res_tuple_key_'): 'as above',
    ('arolla::ForestModel::HandleExpressionWithBags', 'res_tuple_key_'): 'as above',
    ('arolla::expr::VerifySourceLocationType', 'named_tuple_interface'): 'IsNamedTupleQType holds only for types that implement the interface',
    ('arolla::expr::eval_internal::PrepareExpression', 'options.optimizer'): 'the transformation is installed only when an optimizer is set',
    ('arolla::expr_operators::DerivedQTypeUpcastOp::ToLowerLevel', 'node.node_deps()[0].qvalue()'): 'the output type is known only if InferAttributes saw the literal',
    ('arolla::expr_operators::DerivedQTypeDowncastOp::ToLowerLevel', 'node.node_deps()[0].qvalue()'): 'the output type is known only if InferAttributes saw the literal',
}

SKIP = re.compile(r'(_gen\.cc|/main\.cc)$')


def null_returning(F):
  """Repository functions that return a null pointer on some path."""
  out = {}
  for f in F.functions:
    b = f.get('body')
    rt = f.get('rt') or ''
    if not b or not (rt.endswith('*') or 'Ptr' in rt) or 'StatusOr' in rt:
      continue
    for n in walk(b, False):
      if n['k'] != 'Return':
        continue
      e = n.get('e')
      while e and e['k'] in ('Cast', 'Ctor', 'Init'):
        e = e.get('e') or (e.get('a') or e.get('c') or [None])[0]
      if e and e['k'] == 'Null_':
        out[f['u']] = f['n']
  return out


def run(c):
  F = facts.load(facts.ALL)
  c.need(len(F.functions) > 3000, 'functions of the library')
  guard.Guard.assume_dchecks = False
  summaries = guard.Summaries(F)
  nul = null_returning(F)
  names = {short(v) for v in nul.values()}

  def maybe_null(call):
    t = call.get('t') or ''
    return call.get('u') in nul or (callee_short(call) in names and (t.endswith('*') or 'Ptr' in t))

  used = set()
  for f in F.functions:
    if not f.get('body') or SKIP.search(f['file']):
      continue
    c.count('functions')
    try:
      g = guard.analyse(f, maybe_null=maybe_null, summaries=summaries)
    except flow.Explosion:
      c.undecided('%s:%d' % (f['file'], f['l']), f['n'] + ': too many paths')
      continue
    for site, h in sorted(g.derefs.items()):
      c.count('dereferences: ' + h if h in ('statusor', 'optional', 'find') else 'dereferences: other')
      if site not in g.viol:
        c.ok()
        continue
      if (f['n'], site[1]) in INVARIANTS:
        used.add((f['n'], site[1]))
        continue
      c.bad('%s:%d' % (f['file'], site[0]), '%s dereferences %s (%s) on a path that has not established that it holds a value' % (f['n'], site[1], h))
  c.count('dereferences covered by a named invariant', len(used))
  c.count('callees whose success establishes facts', sum(1 for v in summaries.memo.values() if v))
  c.count('null-returning functions', len(nul))


report.main('E01', RULE, run)
