"""U09: binary searches over sorted arrays return the documented position."""
import os
import re
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import absint
from absint import Aff, Ptr, Ref, Obj, Const, Top, Tok, Unsupported
from containers import K, idx
import E05
from E05 import Fault
import U06
import facts
import parcases
import report
import tree as T

RULE = ('Abstract interpretation of util/binary_search.{h,cc} over arrays of opaque elements that compare to the value as less, equal and greater in every division of the array, and to a NaN as unordered: '
        'the position returned is the definition\'s, and no element outside the array is read.')
F = None
FN = {}


class I(U06.I):
  N = LO = HI = 0
  NAN = False

  def load_missing(self, loc, t, st):
    if len(loc) == 2 and loc[0] == 'xs':
      k = loc[1][1] if isinstance(loc[1], tuple) else None
      if not (isinstance(k, tuple) and len(k) == 2 and k[0] == () and isinstance(k[1], int)):
        raise Unsupported('element %r' % (loc,))
      i = k[1]
      if not 0 <= i < self.N:
        raise Fault('element %d of %d is read' % (i, self.N))
      return Tok('E%d' % i)
    return super().load_missing(loc, t, st)

  def e_Sizeof(self, n, st):
    if n.get('what') == 'sizeof' and n.get('val'):
      return [(K(int(n['val'])), st)]
    return super().e_Sizeof(n, st)

  def tok_rel(self, a, b, st):
    if a.n == 'V' and b.n == 'V':
      return '?' if self.NAN else '='
    if a.n != 'V' and b.n != 'V':
      return self.order(int(a.n[1:]), int(b.n[1:]))
    if self.NAN:
      return '?'
    if a.n == 'V':
      return {'<': '>', '>': '<', '=': '='}[self.tok_rel(b, a, st)]
    i = int(a.n[1:])
    return '<' if i < self.LO else '=' if i < self.HI else '>'

  def order(self, i, j):
    return '=' if i == j or self.LO <= min(i, j) and max(i, j) < self.HI else '<' if i < j else '>'

  def model(self, name, n, obj, args, st):
    sh = T.short(name)
    if sh in ('isnan', '__builtin_isnan'):
      v = self.load(args[0], st)
      if not isinstance(v, Tok):
        raise Unsupported('isnan of %r' % (v,))
      return [(self.NAN and v.n == 'V', st)]
    m = re.match(r'std::integral_constant<[^<>]*, (-?\d+)[a-zA-Z]*>::(operator|value_type)', name)
    if m:
      return [(K(int(m.group(1))), st)]
    if sh in ('__builtin_clz', '__builtin_clzl', '__builtin_clzll', 'countl_zero'):
      v = self.load(args[0], st)
      if not isinstance(v, Aff) or v.const() is None:
        raise Unsupported('%s of %r' % (sh, v))
      w = 32 if sh == '__builtin_clz' else 64
      if sh == 'countl_zero':
        w = 32 if '32' in str(n['a'][0].get('ct') or n['a'][0].get('t')) or (n['a'][0].get('ct') or '') in ('unsigned int', 'int') else 64
      if not 0 < v.const() < 2**w:
        raise Fault('the leading bits of %d are counted at line %s' % (v.const(), n['l']))
      return [(K(w - v.const().bit_length()), st)]
    if name in ('std::lower_bound', 'std::upper_bound') and len(args) == 3:
      p, q = self.load(args[0], st), self.load(args[1], st)
      a, b = self.at(p, st), self.at(q, st)
      if a > b or a < 0 or b > self.N:
        raise Fault('%s over [%d, %d) of %d' % (name, a, b, self.N))
      x = self.load(args[2], st)
      for i in range(a, b):
        e = self.load(Ref(self.shift(p, K(i - a), st).loc), st)
        r = self.tok_rel(e, x, st)
        if (r != '<') if sh == 'lower_bound' else (self.tok_rel(x, e, st) == '<'):
          return [(self.shift(p, K(i - a), st), st)]
      return [(q, st)]
    if name == 'std::min' and len(args) == 2:
      vs = [self.load(x, st) for x in args]
      if all(isinstance(v, Ptr) for v in vs):
        return [(vs[0] if self.at(vs[0], st) <= self.at(vs[1], st) else vs[1], st)]
    return super().model(name, n, obj, args, st)

  def compare(self, op, x, y, st, t=''):
    if isinstance(x, Ptr) and isinstance(y, Ptr) and x.loc and y.loc and x.loc[0] == y.loc[0] == 'xs':
      a, b = self.at(x, st), self.at(y, st)
      return [({'<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b, '==': a == b, '!=': a != b}[op], st)]
    return super().compare(op, x, y, st, t)

  def less(self, a, b, st):
    a, b = self.load(a, st), self.load(b, st)
    if isinstance(a, Tok) and isinstance(b, Tok):
      return self.tok_rel(a, b, st) == '<'
    return super().less(a, b, st)


def case(t):
  bad = []
  try:
    judge(t, bad)
  except Fault as e:
    bad.append('%s: %s' % (t[1:], e))
  except Unsupported:
    if not bad:
      raise
  return [t[0] + ': ' + x for x in dict.fromkeys(bad)]


def judge(t, bad):
  fn, n, lo, hi = t
  what = '%d elements, %s' % (n, 'NaN' if lo is None else '%d less, %d equal' % (lo, hi - lo))
  it = I(F)
  st = absint.State()
  it.N = n
  it.NAN = lo is None
  it.LO, it.HI = (lo, hi) if lo is not None else (0, 0)
  p = Ptr(('xs', idx(0)))
  it.BEGIN = p
  if lo is None:
    want = n if fn.startswith('up') else 0
  else:
    want = hi if fn.startswith('up') else lo
  val = Tok('V')
  if fn.startswith('ga'):
    args = [val, p, it.shift(p, K(n), st)]
  else:
    sp = st.fresh('span')
    it.new_span(st, sp, p, K(n))
    args = [val, Obj(sp)]
  for v, s in U06.returns(it, FN[fn], args, st):
    v = it.load(v, s)
    if isinstance(v, Ptr):
      got = it.at(v, s)
    elif isinstance(v, Aff) and v.const() is not None:
      got = v.const()
    else:
      raise Unsupported('position %r' % (v,))
    if got != want:
      bad.append('%s: position %s instead of %d' % (what, got, want))
    bad.extend('%s: %s at line %s' % (what, e[0], e[1]) for e in s.log if e[0] in E05.EVENTS)


NAMES = tuple('%s_%s' % (a, b) for a in ('lo', 'up') for b in ('f32', 'f64', 'i32', 'i64')) + ('ga_f32', 'ga_i64')


def cases(thorough):
  for f in NAMES:
    for n in list(range(0, 18)) + [31, 32, 33, 63, 64] + ([65, 100, 127, 128, 129] if thorough else []):
      if f.endswith(('f32', 'f64')):
        yield (f, n, None, None)
      for lo in range(n + 1):
        for hi in range(lo, n + 1):
          if n < 10 or hi - lo < 2 or hi == n and (thorough or n < 34):
            yield (f, n, lo, hi)


def setup():
  global F
  F = facts.load(facts.Scope(inst=['arolla/util/', '@tu/'], extra=[os.path.join(facts.VERIF, 'tu', 'search.cc')]))
  FN.clear()
  for x in F.functions:
    if x['n'].startswith('witness::') and x['kind'] == 'plain':
      FN[T.short(x['n'])] = x


def site(f):
  want = 'GallopingLowerBound' if f.startswith('ga') else 'LowerBoundImpl' if f.startswith('lo') else 'UpperBoundImpl'
  t = {'f32': 'float', 'f64': 'double', 'i32': 'int', 'i64': 'long'}[f[-3:]]
  for x in F.functions + F.insts:
    if T.short(x['n'].split('<')[0]) == want and x['file'].startswith('arolla/') and (f.startswith('ga') or x['p'][0]['ct'] == t):
      return '%s:%d' % (x['file'], x['l'])
  return 'arolla/util/binary_search.h'


def main(c):
  setup()
  parcases.check(c, case, list(cases(os.environ.get('VERIF_TIER') == 'thorough')), NAMES, FN, {f: site(f) for f in NAMES if f in FN})


if __name__ == '__main__':
  report.main('U09', RULE, main)
