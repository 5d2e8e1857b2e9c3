"""Q06: bitwise operators equal the machine operations on all bits."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import relcheck
import report

RULE = '''Every bitwise operator's instantiated body and its definition (tu/casts.cc) are value-numbered with bitwise terms in canonical form (truth
table over opaque words) and population counts tagged with their width. Rule: on every path the two agree.'''


def run(c):
  relcheck.run_group(c, 'casts.cc', 'bit_', ['arolla/qexpr/operators/', 'arolla/memory/', 'arolla/util/', 'arolla/qexpr/'], modulus=None, minimum=10, split=False)


report.main('Q06', RULE, run)
