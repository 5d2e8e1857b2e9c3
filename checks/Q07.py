"""Q07: inverse distribution functions accept exactly their domain."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import absint
import relcheck
import vn
import report
import tree as T

RULE = '''The instantiated body of each inverse distribution operator and its definition (tu/cdf.cc) are value-numbered for symbolic arguments with exact
boundary arithmetic; the distribution object and its quantile stay uninterpreted. Rule: on every path both report an error or both yield the quantile
of the same distribution with the same parameters at the same point.'''


class Dist(vn.VN):
  def model(self, name, n, obj, args, st):
    cls = n.get('cls') or ''
    if n['k'] == 'Ctor' and cls.startswith('boost::math::'):
      if n.get('copy') or n.get('move'):
        return [(self.load(args[0], st), st)]
      vals = [self.load(a, st) for a in args]
      vals = [vn.lit(v.const()) if isinstance(v, vn.Aff) and v.const() is not None else v for v in vals]
      vals = [vn.Term('default', i) if n['a'][i]['k'] == 'DfltArg' and isinstance(v, absint.Top) else v for i, v in enumerate(vals)]
      return [(vn.Term('dist', T.short(cls), (n.get('ct') or n.get('t') or '').split('<')[0], *vals), st)]
    if name.startswith('boost::math::'):
      vals = [self.load(a, st) for a in args]
      if all(isinstance(v, vn.Term) for v in vals):
        return [(vn.Term(T.short(name), *vals), st)]
    return super().model(name, n, obj, args, st)


def run(c):
  relcheck.run_group(c, 'cdf.cc', 'cdf_', ['arolla/qexpr/operators/math_extra/'], modulus=None, minimum=6, split=False, interp=Dist)


report.main('Q07', RULE, run)
