"""Q04: optional values and presence logic equal their definitions."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import relcheck
import report

RULE = '''For every constructor, comparison and operator on optional values and every three-valued logic operator, including the variants that take
lambdas, the instantiated body and its definition (tu/optional.cc) are value-numbered for symbolic values and every combination of present and
missing arguments. Rule: in every combination and on every path the presence and, when present, the value agree. The value of a missing argument is a
distinct symbol, so a result that leaks it differs.'''


def run(c):
  relcheck.run_group(c, 'optional.cc', 'opt_', ['arolla/qexpr/operators/', 'arolla/memory/', 'arolla/util/', 'arolla/qexpr/'], modulus=None, minimum=65)


report.main('Q04', RULE, run)
