"""Q01: comparison, extremum and sign operators equal their definitions."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import relcheck
import report

RULE = '''For every comparison, minimum, maximum, sign and absolute-value operator and every scalar type, an impl_ witness calls the operator and a ref_
witness states its definition (tu/operators.cc). Both bodies, with everything they call in the repository, are value-numbered for symbolic
arguments; the order relation of two floating-point values is partitioned into less / equal / greater / unordered and integer ranges into
classes with the extremes singled out. Rule: in every partition class and on every path the two value numbers agree and no undefined
behaviour event (signed overflow, division by zero, out-of-range conversion) is logged.'''


def run(c):
  relcheck.run_group(c, 'operators.cc', 'cmp_', ['arolla/qexpr/operators/'], modulus=None, minimum=28)


report.main('Q01', RULE, run)
