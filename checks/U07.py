"""U07: the overflow-checked helpers report exactly the overflowing inputs."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import relcheck
import report

RULE = '''For several result and argument types, each helper's instantiated body and its definition (tu/overflow.cc) are value-numbered with exact
infinite-precision results partitioned by the result type's range. Rule: on every path the helper flags (or returns an error for) exactly the
results outside the range, keeps a flag that was already set, and otherwise returns the exact result; no signed overflow on the way.'''


def run(c):
  relcheck.run_group(c, 'overflow.cc', '', ['arolla/util/'], modulus=None, minimum=50, split=False)


report.main('U07', RULE, run)
