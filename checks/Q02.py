"""Q02: integer arithmetic equals its definition without undefined behaviour."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import relcheck
import report

RULE = '''For every integer arithmetic operator and width, the operator's instantiated body and its definition (tu/operators.cc) are value-numbered as
polynomials over the symbolic operands modulo 2**32 or 2**64, partitioned by the extremes, -1, 0 and 1. Rule: in every class and on every path
the polynomials agree modulo the width, and no operation of the repository's code can overflow a signed type, divide by zero or divide the
minimum by -1 (intervals).'''


def run(c):
  relcheck.run_group(c, 'operators.cc', 'int_', ['arolla/qexpr/operators/'], modulus='int', minimum=19)


report.main('Q02', RULE, run)
