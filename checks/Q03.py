"""Q03: floating-point operators apply the documented function in the argument type."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import relcheck
import report

RULE = '''For every floating-point operator and width, the operator's instantiated body and its definition (tu/operators.cc) are value-numbered over
uninterpreted, IEEE-normalised operations of the stated width (add32 and add64 are different functions). Rule: in every class of the
order relations the paths distinguish, both sides have the same value number; a computation done in the wrong width, by another function or with
swapped operands has a different one.'''


def run(c):
  relcheck.run_group(c, 'operators.cc', 'flt_', ['arolla/qexpr/operators/'], modulus=None, minimum=60)


report.main('Q03', RULE, run)
