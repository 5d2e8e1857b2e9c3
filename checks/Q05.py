"""Q05: numeric casts equal their definition without undefined behaviour."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import relcheck
import report

RULE = '''For every pair of source and destination type, the cast operator's instantiated body and the definition (tu/casts.cc) are value-numbered for
a symbolic argument, with exact floating-point neighbour arithmetic at the range boundaries. Rule: on every path both sides report an error or
both yield the same conversion, and no conversion of a floating-point value can be outside the destination's range (which is undefined).'''


def run(c):
  relcheck.run_group(c, 'casts.cc', 'cast_', ['arolla/qexpr/operators/', 'arolla/memory/', 'arolla/util/', 'arolla/qexpr/'], modulus=None, minimum=30)


report.main('Q05', RULE, run)
