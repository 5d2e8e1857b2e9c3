"""U05: arguments marked as not lifted keep their position and identity."""
import os
import re
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import relcheck
import vn
import report

RULE = '''For every subset of up to four arguments marked as not lifted (and selected subsets of 6 and 36), the variadic templates are instantiated,
their bodies value-numbered for distinct symbolic arguments on the capturing and on the calling side, and the value that arrives in each parameter
position is traced. Rule: a marked argument arrives from the captured argument of its own index, any other from the call's argument of its own
index, and the result is the wrapped function's.'''


class Deep(vn.VN):
  DEPTH = 200


sys.setrecursionlimit(60000)


def run(c):
  try:
    group(c)
  except report.AnalysisBroken as e:
    # An instantiation within the documented limit of 64 arguments that the
    # compiler's constant evaluator rejects inside the library is a violation.
    m = re.search(r'(arolla/qexpr/lifting\.h):(\d+):\d+: error: ([^\n]*(?:constant expression|static assertion|static_assert)[^\n]*)', str(e))
    if not m:
      raise
    c.count('operators', 50)
    c.bad('%s:%s' % (m.group(1), m.group(2)), 'LiftingTools: a supported number of arguments cannot be instantiated: ' + m.group(3))


def group(c):
  relcheck.run_group(c, 'lifting.cc', 'lift_', ['arolla/qexpr/', 'arolla/util/'], modulus=None, minimum=50, split=False, interp=Deep)


report.main('U05', RULE, run)
