"""Value-numbering interpreter: relational comparison of two pieces of code.

Integers are ring elements (affine forms over value numbers such as div(x,y)),
floating-point values are uninterpreted terms normalised only by identities
that hold for every IEEE value.  A floating comparison partitions the state by
the relation of its operands (<, =, >, unordered), so every comparison operator
and isnan/signbit see consistent facts.  Nothing is executed or solved.
"""
import math
import re
import struct

import absint
from absint import Aff, Ptr, Ref, Obj, Const, Top, Fn, Unsupported
import tree as T

FLT = {'float': 4, 'double': 8, 'long double': 16}


class Term:
  __slots__ = ('op', 'a', '_h')

  def __init__(self, op, *a):
    self.op = op
    self.a = a
    self._h = hash((op, a))

  def __eq__(self, o):
    return isinstance(o, Term) and self._h == o._h and self.op == o.op and self.a == o.a

  def __hash__(self):
    return self._h

  def __repr__(self):
    if self.op in ('lit', 'var'):
      return str(self.a[0])
    return '%s(%s)' % (self.op, ', '.join(map(repr, self.a)))


def lit(v):
  return Term('lit', float(v) + 0.0 if v != 0 else 0.0)


def ftype(t):
  t = (t or '').replace('const ', '').replace(' &', '').replace('&', '').strip()
  return t if t in FLT else None


MATH = {'log', 'log2', 'log10', 'log1p', 'exp', 'exp2', 'expm1', 'sqrt', 'cbrt', 'pow', 'sin', 'cos', 'tan', 'sinh', 'cosh', 'tanh', 'asin',
        'acos', 'atan', 'atan2', 'floor', 'ceil', 'round', 'trunc', 'rint', 'nearbyint', 'fmod', 'copysign', 'fabs', 'hypot', 'fma', 'ldexp',
        'erf', 'erfc', 'lgamma', 'tgamma', 'remainder', 'fmin', 'fmax', 'lrint', 'llrint', 'lround', 'llround', 'asinh', 'acosh', 'atanh'}
CODES = {'InvalidArgumentError': 'kInvalidArgument', 'FailedPreconditionError': 'kFailedPrecondition', 'OutOfRangeError': 'kOutOfRange',
         'InternalError': 'kInternal', 'UnimplementedError': 'kUnimplemented', 'NotFoundError': 'kNotFound', 'CancelledError': 'kCancelled',
         'AlreadyExistsError': 'kAlreadyExists', 'ResourceExhaustedError': 'kResourceExhausted', 'UnknownError': 'kUnknown',
         'DataLossError': 'kDataLoss', 'AbortedError': 'kAborted', 'DeadlineExceededError': 'kDeadlineExceeded'}


def f32(v):
  try:
    return struct.unpack('f', struct.pack('f', v))[0]
  except OverflowError:
    return math.copysign(math.inf, v)


def fnextf(c, up):
  """The neighbouring float of a value (rounded outward when it is not a float itself)."""
  f = f32(c)
  if f != c:
    if (f > c) == up:
      return f
    c = f
  if math.isinf(c) and (c > 0) == up:
    return c
  i = struct.unpack('i', struct.pack('f', c))[0]
  if c == 0:
    return math.copysign(struct.unpack('f', struct.pack('i', 1))[0], 1 if up else -1)
  i += 1 if (c > 0) == up else -1
  return struct.unpack('f', struct.pack('i', i))[0]


# operations whose result is NaN when an argument is
STRICT = re.compile(r'^(add|sub|mul|div|fmod|floor|ceil|round|trunc|sqrt|cbrt|exp|exp2|expm1|log|log2|log10|log1p|sin|cos|tan|asin|acos|atan|sinh|cosh|tanh|ftof|widen|narrow)[0-9_]*$')


class VN(absint.Interp):
  check_ub = True

  def load_missing(self, loc, t, st):
    if loc and loc[0] == 'arg':
      return self.symbol('.'.join(map(str, loc[1:])), t, st)
    return Top(t)

  def symbol(self, nm, t, st):
    """An unknown input of type t."""
    t = (t or '').replace('const ', '').replace('&', '').strip()
    if ftype(t):
      return Term('var', nm)
    r = absint.int_range(t)
    if r:
      return self.vn(nm, r[0], r[1], st)
    return Top(t)

  def e_Mem(self, n, st):
    apv = n['b'].get('apv') if n.get('field') else None
    if apv and len(apv) == 1:
      r = absint.int_range(n.get('ct') or n['t'])
      if r:
        return [(Aff((), int(apv[0])), st)]
    return absint.Interp.e_Mem(self, n, st)

  # ---- floating point ---------------------------------------------------------
  def e_Float(self, n, st):
    v = float(n['v'])
    if ftype(n.get('ct') or n.get('t')) == 'float':
      v = struct.unpack('f', struct.pack('f', v))[0]
    return [(lit(v), st)]

  def cast_float(self, n, v, t, st):
    src = n['e'].get('ct') or n['e'].get('t')
    if isinstance(v, bool):
      v = Aff((), int(v))
    if n['ck'] == 'IntegralToFloating':
      if isinstance(v, Aff):
        if v.const() is not None:
          return lit(v.const())
        return Term('itof:' + (ftype(t) or t), v)
      return Top(t)
    if n['ck'] == 'FloatingCast':
      a, b = ftype(src), ftype(t)
      if isinstance(v, Term):
        if a == b or v.op == 'lit' and (v.a[0] == struct.unpack('f', struct.pack('f', v.a[0]))[0] or b != 'float'):
          return v
        if FLT.get(b, 0) >= FLT.get(a, 0):
          return Term('widen', v)
        if v.op == 'widen' and FLT.get(b) == 4:
          return v.a[0]
        if v.op == 'itof:double' and FLT.get(b) == 4:
          lo, hi = absint.rng(v.a[0], st)
          if -2**53 <= lo and hi <= 2**53:
            return Term('itof:float', v.a[0])
        return Term('narrow', v)
      return v
    if n['ck'] == 'FloatingToIntegral' and isinstance(v, Term):
      self.ftoi(n, v, t, st)
      r = absint.int_range(t) or (-absint.INF, absint.INF)
      return self.vn('ftoi:%s(%r)' % (t, v), r[0], r[1], st)
    return Top(t)

  def ftoi(self, n, v, t, st):
    """Float to integer conversion: UB unless the truncated value is representable."""
    r = absint.int_range(t)
    lo, hi, nan = self.finterval(v, st)
    if r is not None and (nan or not (lo > r[0] - 1 and hi < r[1] + 1)):
      self.ub(st, n, 'the value of %r may not be representable in %s' % (v, t))

  widths = {}

  def fnext(self, v, c, up):
    """The neighbour of c in the type of v, or c itself if that type is not known."""
    w = self.widths.get(v.a[0]) if v.op == 'var' else None
    if w == 'double':
      return math.nextafter(c, math.inf if up else -math.inf)
    if w == 'float':
      return fnextf(c, up)
    return c

  def finterval(self, v, st):
    """(lo, hi, may be NaN) of a term from the recorded relations to literals."""
    if v.op == 'lit':
      return v.a[0], v.a[0], False
    lo, hi = -math.inf, math.inf
    nan = True
    for k, r in st.heap.items():
      if k[0] == 'rel':
        x, y = k[1], k[2]
        if x == v or y == v:
          if r != '?':
            nan = False
          if x == y:
            continue
          if y == v:
            x, y, r = y, x, {'<': '>', '>': '<'}.get(r, r)
          if isinstance(y, Term) and y.op == 'lit':
            c = y.a[0]
            if r == '<':
              hi = min(hi, self.fnext(v, c, False))
            elif r == '>':
              lo = max(lo, self.fnext(v, c, True))
            elif r == '=':
              lo, hi = max(lo, c), min(hi, c)
    return lo, hi, nan

  def rel(self, x, y, st):
    """Partition by the relation of x and y. -> list of (relation, state)."""
    if x.op == 'lit' and y.op == 'lit':
      a, b = x.a[0], y.a[0]
      return [('<' if a < b else '>' if a > b else '=' if a == b else '?', st)]
    if x.op == 'widen' and y.op == 'widen':
      return self.rel(x.a[0], y.a[0], st)
    for a, b, fl in ((x, y, {}), (y, x, {'<': '>', '>': '<'})):
      # a widened float against a double: compare with the largest float not above it
      if a.op == 'widen' and a.a[0].op != 'widen' and b.op == 'lit' and FLT.get(self.widths.get(a.a[0].a[0] if a.a[0].op == 'var' else '')) == 4:
        c = b.a[0]
        if c != c or f32(c) == c:
          return [(fl.get(r, r), s) for r, s in self.rel(a.a[0], lit(c), st)]
        c = f32(c) if f32(c) < c else fnextf(f32(c), False)
        m = {'<': '<', '=': '<', '>': '>', '?': '?'}
        return [(fl.get(m[r], m[r]), s) for r, s in self.rel(a.a[0], lit(c), st)]
    flip = repr(y) < repr(x)
    if flip:
      x, y = y, x
    key = ('rel', x, y)
    fl = {'<': '>', '>': '<'} if flip else {}
    if key in st.heap:
      r = st.heap[key]
      return [(fl.get(r, r), st)]
    if x == y:
      cand = '=?'
    else:
      cand = '<=>?'
    nx, ny = self.isnan_known(x, st), self.isnan_known(y, st)
    if nx is True or ny is True:
      cand = '?'
    elif nx is False and ny is False:
      cand = cand.replace('?', '')
    out = []
    for r in cand:
      s = st.clone()
      s.heap[key] = r
      if not self.consistent(s, x, y):
        continue
      out.append((fl.get(r, r), s))
    return out

  def consistent(self, st, *ts):
    for v in ts:
      if v.op == 'lit':
        continue
      lo, hi, _ = self.finterval(v, st)
      if lo > hi:
        return False
      if lo == hi and v.op == 'var' and v.a[0] in self.widths:
        for k, r in st.heap.items():
          if k[0] == 'rel' and v in k[1:3] and k[1] != k[2]:
            o = k[2] if k[1] == v else k[1]
            rr = r if k[1] == v else {'<': '>', '>': '<'}.get(r, r)
            if o.op == 'lit' and rr != ('<' if lo < o.a[0] else '>' if lo > o.a[0] else '='):
              return False
      elif lo == hi:
        # only an '=' fact may pin a value; '<' and '>' the same literal exclude each other
        rels = set()
        for k, r in st.heap.items():
          if k[0] == 'rel' and v in k[1:3] and k[1] != k[2]:
            o = k[2] if k[1] == v else k[1]
            if o.op == 'lit' and o.a[0] == lo:
              rels.add(r if k[1] == v else {'<': '>', '>': '<'}.get(r, r))
        if '=' in rels and len(rels) > 1 or '=' not in rels:
          return False
        for k, r in st.heap.items():
          if k[0] == 'rel' and v in k[1:3] and k[1] != k[2]:
            o = k[2] if k[1] == v else k[1]
            if o.op == 'lit':
              rr = r if k[1] == v else {'<': '>', '>': '<'}.get(r, r)
              c = o.a[0]
              if rr == '<' and not lo < c or rr == '>' and not lo > c or rr == '=' and lo != c:
                return False
      nan = [r == '?' for k, r in st.heap.items() if k[0] == 'rel' and v in k[1:3]]
      self_nan = st.heap.get(('rel', v, v))
      if self_nan == '?' and not all(nan) or self_nan == '=' and any(
          r == '?' and (k[1].op == 'lit' or k[2].op == 'lit') for k, r in st.heap.items() if k[0] == 'rel' and v in k[1:3]):
        return False
      for k, r in st.heap.items():
        if k[0] == 'rel' and r == '?' and v in k[1:3]:
          o = k[2] if k[1] == v else k[1]
          if o.op == 'lit' and not all(nan):
            return False
    return True

  def isnan_known(self, x, st):
    if x.op == 'lit':
      return x.a[0] != x.a[0]
    for k, r in st.heap.items():
      if k[0] == 'rel' and x in k[1:3]:
        if r != '?':
          return False
        o = k[2] if k[1] == x else k[1]
        if o == x or o.op == 'lit':
          return True
    if st.heap.get(('pred', 'isfinite', x)) is True or st.heap.get(('pred', 'isinf', x)) is True:
      return False
    if x.op in ('neg', 'fabs') or x.op.startswith('itof'):
      return self.isnan_known(x.a[0], st) if isinstance(x.a[0], Term) else False
    if STRICT.match(x.op) and any(isinstance(y, Term) and self.isnan_known(y, st) is True for y in x.a):
      return True
    return None

  def isnan(self, x, st):
    k = self.isnan_known(x, st)
    if k is not None:
      return [(k, st)]
    return [(r == '?', s) for r, s in self.rel(x, x, st)]

  def pred(self, name, x, st):
    """isfinite / isinf / signbit as memoised facts."""
    if x.op == 'lit':
      v = x.a[0]
      return [({'isfinite': math.isfinite(v), 'isinf': math.isinf(v), 'signbit': math.copysign(1, v) < 0}[name], st)]
    if name == 'isnan':
      return self.isnan(x, st)
    key = ('pred', name, x)
    if key in st.heap:
      return [(st.heap[key], st)]
    if name in ('isfinite', 'isinf'):
      out = []
      for r, s in self.rel(x, lit(math.inf), st):
        if r in '?=':
          out.append(((r == '=') == (name == 'isinf') and r == '=', s))
          continue
        for r2, s2 in self.rel(x, lit(-math.inf), s):
          out.append(((r2 == '=') == (name == 'isinf'), s2))
      return out
    if name == 'signbit':
      lo, hi, nan = self.finterval(x, st)
      if not nan:
        zero = [r for k, r in st.heap.items() if k[0] == 'rel' and x in k[1:3] and any(isinstance(o, Term) and o.op == 'lit' and o.a[0] == 0 for o in k[1:3])]
        if zero and zero[0] != '=':
          return [(hi <= 0, st)]
    out = []
    for v in (True, False):
      s2 = st.clone()
      s2.heap[key] = v
      out.append((v, s2))
    return out

  def compare(self, op, x, y, st, t=''):
    if isinstance(x, Term) and isinstance(y, Term):
      if x.op == 'status' or y.op == 'status':
        return super().compare(op, x, y, st, t)
      out = []
      for r, s in self.rel(x, y, st):
        out.append(({'<': r == '<', '<=': r in '<=', '>': r == '>', '>=': r in '>=', '==': r == '=', '!=': r != '='}[op], s))
      return out
    if isinstance(x, Term) and isinstance(y, (Aff, bool)) or isinstance(y, Term) and isinstance(x, (Aff, bool)):
      f = lambda v: v if isinstance(v, Term) else lit(int(v) if isinstance(v, bool) else v.const())
      return self.compare(op, f(x), f(y), st, t)
    return super().compare(op, x, y, st, t)

  def truth(self, v, st):
    if isinstance(v, Term) and v.op != 'status':
      return self.compare('!=', v, lit(0), st)
    return super().truth(v, st)

  def unop(self, op, v, n, st):
    if isinstance(v, Term):
      return v if op == '+' else self.neg(v)
    return Top(n['t'])

  def neg(self, v):
    if v.op == 'neg':
      return v.a[0]
    if v.op == 'lit' and v.a[0] != 0:
      return lit(-v.a[0])
    if v.op in ('mul', 'div') and v.a[0].op == 'neg':
      return self.fop(v.op, v.a[0].a[0], v.a[1])
    if v.op == 'add':
      return self.fop('add', self.neg(v.a[0]), self.neg(v.a[1]))
    return Term('neg', v)

  def fop(self, op, x, y):
    if op == 'sub':
      return self.fop('add', x, self.neg(y))
    if op == 'mul' or op == 'div':
      s = False
      if x.op == 'neg':
        x, s = x.a[0], not s
      if y.op == 'neg':
        y, s = y.a[0], not s
      if x.op == 'lit' and x.a[0] < 0:
        x, s = lit(-x.a[0]), not s
      if y.op == 'lit' and y.a[0] < 0:
        y, s = lit(-y.a[0]), not s
      if op == 'div' and y.op == 'lit' and y.a[0] > 0 and math.frexp(y.a[0])[0] == 0.5 and 1e-30 < y.a[0] < 1e30:
        op, y = 'mul', lit(1 / y.a[0])
      if op == 'mul' and repr(y) < repr(x):
        x, y = y, x
      if op == 'mul' and x == lit(1):
        r = y
      elif op == 'mul' and y == lit(1) or op == 'div' and y == lit(1):
        r = x
      elif op == 'mul' and lit(2) in (x, y):
        z = y if x == lit(2) else x
        r = self.fop('add', z, z)
      else:
        r = Term(op, x, y)
      return self.neg(r) if s else r
    if op == 'add':
      if repr(y) < repr(x):
        x, y = y, x
      return Term('add', x, y)
    return Term(op, x, y)

  def math(self, f, args):
    if f in ('abs',):
      f = 'fabs'
    if f == 'fabs' and args[0].op in ('neg', 'fabs'):
      return self.math('fabs', (args[0].a[0],))
    if f == 'fabs' and args[0].op == 'add':
      args = (min(args[0], self.neg(args[0]), key=repr),)
    if f == 'cos' and args[0].op == 'neg':
      return self.math('cos', (args[0].a[0],))
    return Term(f, *args)

  def fork_cmp(self, op, d, st):
    """Multi-symbol differences are partitioned three ways so that != stays exact."""
    if op in ('==', '!=') and len(d.c) > 1:
      lo, hi = absint.rng(d, st)
      if lo < 0 < hi or (lo <= 0 <= hi and lo != hi):
        out = []
        for o, eq in (('<', False), ('==', True), ('>', False)):
          s = st.clone()
          if self.refine(d, o, s):
            out.append((eq == (op == '=='), s))
        return out
    return super().fork_cmp(op, d, st)

  # ---- integers -----------------------------------------------------------------
  def vn(self, name, lo, hi, st):
    if name not in st.iv:
      st.iv[name] = (lo, hi)
    return Aff({name: 1})

  def ub(self, st, n, what):
    if self.check_ub:
      self.event(st, 'UB', n.get('l', 0), what)

  def width(self, t):
    r = absint.int_range(t)
    return (r[1] - r[0] + 1) if r else None

  def signed(self, t):
    r = absint.int_range(t)
    return r is not None and r[0] < 0

  def trunc(self, v, t, st):
    return v   # a ring element: only its residue matters until a representative is needed

  def arith(self, op, x, y, n, st):
    t = n.get('ct') or n.get('t')
    if isinstance(x, Term) or isinstance(y, Term):
      f = lambda v: v if isinstance(v, Term) else lit(int(v) if isinstance(v, bool) else v.const())
      nm = {'+': 'add', '-': 'sub', '*': 'mul', '/': 'div'}.get(op)
      if nm:
        return self.fop(nm, f(x), f(y))
    if isinstance(x, bool):
      x = Aff((), int(x))
    if isinstance(y, bool):
      y = Aff((), int(y))
    if isinstance(x, Aff) and isinstance(y, Aff):
      if op in ('/', '%'):
        return self.divmod(op, x, y, n, st)
      if op in ('&', '|', '^') and (x.const() is None or y.const() is None):
        return self.bitop(op, x, y, n, st)
      r = super().arith(op, x, y, n, st)
      if isinstance(r, Top):
        if op == '*':
          ks = sorted((repr(x), repr(y)))
          lo, hi = self.mulrange(x, y, st)
          r = self.vn('mul(%s, %s)' % tuple(ks), lo, hi, st)
        else:
          rg = absint.int_range(t) or (-absint.INF, absint.INF)
          return self.vn('%s(%r, %r)' % (op, x, y), rg[0], rg[1], st)
      if self.signed(t) and op in ('+', '-', '*', '<<'):
        rg = absint.int_range(t)
        lo, hi = absint.rng(r, st)
        if lo < rg[0] or hi > rg[1]:
          self.ub(st, n, 'signed overflow in %r (%s)' % (r, t))
      return r
    return super().arith(op, x, y, n, st)

  def mulrange(self, x, y, st):
    a, b = absint.rng(x, st), absint.rng(y, st)
    c = [p * q if not (abs(p) == absint.INF and q == 0 or abs(q) == absint.INF and p == 0) else 0 for p in a for q in b]
    return min(c), max(c)

  def arith_l(self, op, x, y, n, st):
    if op == '%' and isinstance(x, Aff) and isinstance(y, Aff):
      # (m + y) % y with m = z % y of the opposite sign of y: 0 if m == 0, else m + y itself
      d = x.add(y, -1)
      if len(d.c) == 1 and d.k == 0 and list(d.c.items())[0][1] == 1:
        m = list(d.c)[0]
        if m.startswith('mod(') and m.endswith(', %r)' % y):
          ml, mh = absint.rng(d, st)
          yl, yh = absint.rng(y, st)
          if mh <= 0 < yl or yh < 0 <= ml:
            return [(Aff((), 0) if b else x, s) for b, s in self.fork_cmp('==', d, st)]
    return [(self.arith(op, x, y, n, st), st)]

  def divmod(self, op, x, y, n, st):
    t = n['x'].get('ct') or n['x'].get('t')
    t = n.get('ct') or t
    x2, y2 = self.rep(x, t, st), self.rep(y, t, st)
    if x2 is None or y2 is None:
      x2 = x2 if x2 is not None else self.vn('rep:%s(%r)' % (t, x), *absint.int_range(t), st)
      y2 = y2 if y2 is not None else self.vn('rep:%s(%r)' % (t, y), *absint.int_range(t), st)
    x, y = x2, y2
    xl, xh = absint.rng(x, st)
    yl, yh = absint.rng(y, st)
    if yl <= 0 <= yh:
      self.ub(st, n, 'division by zero: the divisor %r may be 0' % y)
      return Top(n['t'])
    rg = absint.int_range(t)
    if rg and self.signed(t) and xl <= rg[0] and yl <= -1 <= yh:
      self.ub(st, n, 'the minimal value may be divided by -1')
    if x.const() is not None and y.const() is not None:
      q = abs(x.const()) // abs(y.const()) * (1 if (x.const() < 0) == (y.const() < 0) else -1)
      return Aff((), q if op == '/' else x.const() - q * y.const())
    if op == '/':
      if y.const() == 1:
        return x
      if y.const() == -1:
        return x.mul(-1)
      def dv(a, b):
        if abs(a) == absint.INF:
          return a if b > 0 else -a
        q = abs(a) // abs(b) if abs(b) != absint.INF else 0
        return q if (a < 0) == (b < 0) else -q
      c = [dv(a, b) for a in (xl, xh) for b in (yl, yh)]
      lo, hi = min(c), max(c)
      if xl <= 0 <= xh:
        lo, hi = min(lo, 0), max(hi, 0)
      return self.vn('div(%r, %r)' % (x, y), lo, hi, st)
    if y.const() in (1, -1):
      return Aff((), 0)
    if max(abs(xl), abs(xh)) < min(abs(yl), abs(yh)):
      return x
    dl, dh = absint.rng(x.add(y, -1), st)
    if dl == dh == 0:
      return Aff((), 0)
    if yl > 0 and xl >= 0 and dh < 0 or yh < 0 and xh <= 0 and dl > 0:
      return x
    m = max(abs(yl), abs(yh)) - 1
    lo = 0 if xl >= 0 else max(-m, xl)
    hi = 0 if xh <= 0 else min(m, xh)
    return self.vn('mod(%r, %r)' % (x, y), lo, hi, st)

  def bitop(self, op, x, y, n, st):
    t = n.get('ct') or n.get('t')
    rg = absint.int_range(t) or (-absint.INF, absint.INF)
    xl, xh = absint.rng(x, st)
    yl, yh = absint.rng(y, st)
    x, y = Aff((), xl) if xl == xh else x, Aff((), yl) if yl == yh else y
    if x.const() is not None and y.const() is not None:
      return absint.Interp.arith(self, op, x, y, n, st)
    if op == '|' and xl >= 0 and yl >= 0 and xh <= 1 and yh <= 1 and (xl == 1 or yl == 1):
      return Aff((), 1)
    lo, hi = rg
    sx = 1 if xl >= 0 else -1 if xh < 0 else 0
    sy = 1 if yl >= 0 else -1 if yh < 0 else 0
    if self.signed(t) and sx and sy:
      neg = {'&': sx < 0 and sy < 0, '|': sx < 0 or sy < 0, '^': sx != sy}[op]
      lo, hi = (rg[0], -1) if neg else (0, rg[1])
    if op == '&':
      for a, b in ((xl, xh), (yl, yh)):
        if a >= 0:
          lo, hi = max(lo, 0), min(hi, b)
    ax, tx = self.bitform(x, t)
    ay, ty = self.bitform(y, t)
    atoms = sorted(set(ax) | set(ay), key=repr)
    if len(atoms) > 6:
      ks = sorted((repr(x), repr(y)))
      return self.vn('%s(%s, %s)' % (op, ks[0], ks[1]), lo, hi, st)
    tab = []
    for m in range(1 << len(atoms)):
      val = {a: m >> i & 1 for i, a in enumerate(atoms)}
      p = tx[sum(val[a] << i for i, a in enumerate(ax))]
      q = ty[sum(val[a] << i for i, a in enumerate(ay))]
      tab.append({'&': p & q, '|': p | q, '^': p ^ q}[op])
    # drop the atoms the result does not depend on
    i = 0
    while i < len(atoms):
      if all(tab[m] == tab[m ^ (1 << i)] for m in range(len(tab))):
        tab = [tab[m] for m in range(len(tab)) if not m >> i & 1]
        atoms.pop(i)
      else:
        i += 1
    if not atoms:
      return Aff((), 0 if not tab[0] else -1 if self.signed(t) else rg[1])
    if tab == [0, 1]:
      return atoms[0]
    if tab == [1, 0] and self.signed(t):
      return atoms[0].mul(-1).add(Aff((), -1))
    r = self.vn('bits%s(%s)' % (''.join(map(str, tab)), ', '.join(map(repr, atoms))), lo, hi, st)
    self.bitdefs[repr(r)] = (tuple(atoms), tuple(tab))
    return r

  bitdefs = {}

  def bitform(self, v, t):
    """(atoms, truth table) of a bitwise expression; complement is -v - 1."""
    if v.const() == 0:
      return (), (0,)
    if v.const() == -1 or not self.signed(t) and v.const() == (absint.int_range(t) or (0, None))[1]:
      return (), (1,)
    if repr(v) in self.bitdefs:
      return self.bitdefs[repr(v)]
    n = v.mul(-1).add(Aff((), -1))
    if v.c and all(k < 0 for k in v.c.values()):
      a, tab = self.bitform(n, t)
      return a, tuple(1 - b for b in tab)
    return (v,), (0, 1)

  def e_Un(self, n, st):
    out = super().e_Un(n, st)
    t = n.get('ct') or n.get('t')
    if n['op'] == '-' and self.signed(t):
      rg = absint.int_range(t)
      for v, s in out:
        if isinstance(v, Aff):
          lo, hi = absint.rng(v, s)
          if lo < rg[0] or hi > rg[1]:
            self.ub(s, n, 'signed overflow in %r (%s)' % (v, t))
    return out

  def e_Cast(self, n, st):
    if n['ck'] == 'IntegralCast':
      t = n.get('ct') or n['t']
      src = n['e'].get('ct') or n['e'].get('t')
      w, ws = self.width(t), self.width(src)
      out = []
      for v, s in self.rv(n['e'], st):
        if isinstance(v, bool):
          v = Aff((), int(v))
        if isinstance(v, Aff):
          if ws and w and w > ws:
            r = self.rep(v, src, s)
            v = r if r is not None else self.repof(src, v, s)
          elif w:
            r = self.rep(v, t, s)
            v = r if r is not None else v
        out.append((v, s))
      return out
    return super().e_Cast(n, st)

  def repof(self, t, v, st):
    r = self.vn('rep:%s(%r)' % (t, v), *absint.int_range(t), st)
    self.repdefs[repr(r)] = v
    return r

  def popcount(self, v, w, st):
    m = re.fullmatch(r'rep:(unsigned \w+|bool)\((.*)\)', repr(v))
    if m and self.width(m.group(1)) and self.width(m.group(1)) <= 2**w and repr(v) in self.repdefs:
      w = self.width(m.group(1)).bit_length() - 1
      v = self.repdefs[repr(v)]
    if v.const() is not None:
      return Aff((), bin(v.const() % 2**w).count('1'))
    return self.vn('popcount%d(%r)' % (w, v), 0, w, st)

  repdefs = {}

  # ---- calls ------------------------------------------------------------------------
  def overflow(self, op, args, n, st):
    """__builtin_*_overflow: the exact result in infinite precision, then a three-way partition by the result type's range."""
    v = []
    for a, nd in zip(args[:2], n['a']):
      x = self.load(a, st)
      if isinstance(x, bool):
        x = Aff((), int(x))
      t = nd.get('ct') or nd.get('t')
      r = self.rep(x, t, st) if isinstance(x, Aff) else None
      if r is None:
        return None
      v.append(r)
    x, y = v
    if op == 'mul' and x.const() is None and y.const() is None:
      r = self.vn('mul(%s, %s)' % tuple(sorted((repr(x), repr(y)))), *self.mulrange(x, y, st), st)
    else:
      r = x.mul(y.const()) if op == 'mul' and y.const() is not None else y.mul(x.const()) if op == 'mul' else x.add(y, 1 if op == 'add' else -1)
    p = self.load(args[2], st)
    pt = (n['a'][2].get('ct') or n['a'][2].get('t')).rstrip('* ')
    rg = absint.int_range(pt)
    if not isinstance(p, absint.Ptr) or rg is None:
      return None
    out = []
    for b, s in self.fork_cmp('<', r.add(Aff((), rg[0]), -1), st):
      for b2, s2 in ([(True, s)] if b else self.fork_cmp('>', r.add(Aff((), rg[1]), -1), s)):
        self.store(p.loc, Term('wrapped', r, pt) if b2 else r, s2)
        out.append((b2, s2))
    return out

  def model(self, name, n, obj, args, st):
    sh = T.short(name)
    m = sh
    for p in ('__builtin_',):
      if m.startswith(p):
        m = m[len(p):]
    base = m
    if base not in MATH and base[:-1] in MATH and base[-1:] in 'fl':
      base = base[:-1]
    if (name.startswith(('std::', '__builtin_')) or '::' not in name) and n.get('fn'):
      vals = None
      if base in MATH or base in ('isnan', 'isinf', 'isfinite', 'signbit', 'abs', 'isinf_sign'):
        vals = [self.load(a, st) for a in args]
        pt = (n.get('crt') or n.get('ct') or n.get('t'))
        if base == 'abs' and not all(isinstance(v, Term) for v in vals):
          v = vals[0]
          if isinstance(v, Aff):
            out = []
            for b, s in self.fork_cmp('<', v, st):
              r = v.mul(-1) if b else v
              rg = absint.int_range(n.get('ct') or n['t'])
              if rg and b and absint.rng(r, s)[1] > rg[1]:
                self.ub(s, n, 'std::abs of the minimal value')
              out.append((r, s))
            return out
          return None
        if base in ('isnan', 'isinf', 'isfinite', 'signbit'):
          v = vals[0]
          if isinstance(v, (Aff, bool)):
            if base == 'signbit':
              return None
            return [(base == 'isfinite', st)]
          if isinstance(v, Term):
            if v.op == 'widen':
              v = v.a[0]
            return self.pred(base, v, st)
        vals = [lit(v.const()) if isinstance(v, Aff) and v.const() is not None else Term('itof:double', v) if isinstance(v, Aff) else v for v in vals]
        if all(isinstance(v, Term) for v in vals):
          if base in ('fmin', 'fmax'):
            return None
          rt = ftype(n.get('ct') or n.get('t'))
          r = self.math(base, tuple(vals))
          return [(r, st)]
    if name.startswith('std::numeric_limits'):
      t = n.get('ct') or n.get('t')
      rg = absint.int_range(t)
      if rg and sh in ('min', 'max', 'lowest'):
        return [(Aff((), rg[1] if sh == 'max' else rg[0]), st)]
      if sh == 'infinity':
        return [(lit(math.inf), st)]
      if sh == 'quiet_NaN':
        return [(Term('lit', math.nan), st)]
      if ftype(t):
        v = {'float': {'max': 3.4028234663852886e38, 'lowest': -3.4028234663852886e38, 'min': 1.1754943508222875e-38, 'epsilon': 2**-23},
             'double': {'max': 1.7976931348623157e308, 'lowest': -1.7976931348623157e308, 'min': 2.2250738585072014e-308, 'epsilon': 2**-52}}[ftype(t)].get(sh)
        if v is not None:
          return [(lit(v), st)]
    mo = re.match(r'__builtin_[su]?(add|sub|mul)l{0,2}_overflow$', name)
    if mo and len(args) == 3:
      return self.overflow(mo.group(1), args, n, st)
    pc = {'popcount': None, 'popcountl': 64, 'popcountll': 64}
    if m in pc and name.startswith(('std::', '__builtin_')):
      v = self.load(args[0], st)
      at = n['a'][0].get('ct') or n['a'][0].get('t')
      if isinstance(v, Aff):
        w = pc[m] or {2**8: 8, 2**16: 16, 2**32: 32, 2**64: 64}.get(self.width(at), 32)
        return [(self.popcount(v, w, st), st)]
    if (n.get('cls') or '').startswith('std::bitset'):
      if n['k'] == 'Ctor':
        v = self.load(args[0], st) if args else Aff()
        if isinstance(v, (Term,)) and v.op == 'bitset':
          return [(v, st)]
        N = re.search(r'bitset>#V\w(\d+)', n.get('iu') or '') or re.search(r'bitset<(\d+)', n.get('ct') or n['t'])
        if isinstance(v, Aff) and N:
          return [(Term('bitset', int(N.group(1)), v), st)]
      elif sh == 'count' and obj is not None:
        v = self.load(obj, st)
        if isinstance(v, Term) and v.op == 'bitset':
          return [(self.popcount(v.a[1], v.a[0], st), st)]
    if name.startswith('absl::') and sh in CODES:
      return [(Term('status', CODES[sh]), st)]
    cls = n.get('cls') or ''
    if n['k'] == 'Ctor' and cls == 'absl::Status':
      if n.get('copy') or n.get('move'):
        return [(self.load(args[0], st), st)]
      if args:
        c = self.load(args[0], st)
        return [(Term('status', T.short(c.v[1]) if isinstance(c, Const) and isinstance(c.v, tuple) else repr(c)), st)]
      return [(Term('status', 'kOk'), st)]
    if n['k'] == 'Ctor' and cls == 'absl::StatusOr':
      v = self.load(args[0], st) if args else Term('status', 'kUnknown')
      if isinstance(v, Term) and v.op not in ('status', 'lit') and n['t'].replace(' ', '').endswith('StatusOr<float>') and n['a'] and \
          ftype(n['a'][0].get('ct') or n['a'][0].get('t')) == 'double':
        v = v.a[0] if v.op == 'widen' else Term('narrow', v)
      return [(v, st)]
    if name == 'std::get' and n.get('ta') and len(args) == 1 and isinstance(args[0], (Ref, Obj)):
      a = st.heap.get(args[0].loc + ('$apv',))
      if a is not None:
        vals = list(reversed(a.v))
        i = int(''.join(ch for ch in n['ta'][0] if ch.isdigit()))
        t = (n.get('ct') or n.get('t'))
        return [(self.const_value({'cv': vals[i], 't': t, 'ct': t.replace('const ', '').replace('&', '').strip() if t else t}), st)]
    if name.startswith('absl::Str') or name in ('absl::StrFormat',):
      return [(Top('string'), st)]
    return None


def same(a, b, mod=None):
  """Whether two abstract results are the same value (ring elements modulo `mod`)."""
  if isinstance(a, bool):
    a = Aff((), int(a))
  if isinstance(b, bool):
    b = Aff((), int(b))
  if isinstance(a, Aff) and isinstance(b, Aff):
    d = a.add(b, -1)
    if not d.c and d.k == 0:
      return True
    return mod is not None and all(v % mod == 0 for v in d.c.values()) and d.k % mod == 0
  if isinstance(a, Term) and isinstance(b, Term):
    if a.op == b.op == 'lit' and a.a[0] != a.a[0] and b.a[0] != b.a[0]:
      return True
    return a == b
  return False
