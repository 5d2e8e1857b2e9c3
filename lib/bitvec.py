"""Words with symbolic bits for the abstract interpreter.

A word is a BV: a tuple of bits, least significant first. A bit is a boolean
function of a few variables in canonical form (support, truth table)."""
from absint import Aff, Ptr, Ref, Obj, Const, Top, Unsupported, int_range
import containers
import statuses
from containers import K, idx
import tree as T


class Bit:
  __slots__ = ('vs', 'tt')

  def __init__(self, vs, tt):
    self.vs, self.tt = vs, tt

  def __eq__(self, o):
    return isinstance(o, Bit) and self.vs == o.vs and self.tt == o.tt

  def __hash__(self):
    return hash((self.vs, self.tt))

  def __repr__(self):
    if not self.vs:
      return str(self.tt & 1)
    if len(self.vs) == 1:
      return ('%s' if self.tt == 2 else '!%s') % (self.vs[0],)
    return 'f%d%s' % (self.tt, self.vs)


ZERO, ONE = Bit((), 0), Bit((), 1)


def var(name):
  return Bit((name,), 2)


def _reduce(vs, tt):
  i = 0
  while i < len(vs):
    n = len(vs)
    lo = hi = 0
    same = True
    pos = 0
    for k in range(1 << n):
      if not k >> i & 1:
        a, b = tt >> k & 1, tt >> (k | 1 << i) & 1
        if a != b:
          same = False
          break
        lo |= a << pos
        pos += 1
    if same:
      vs, tt = vs[:i] + vs[i + 1:], lo
    else:
      i += 1
  return Bit(vs, tt)


_memo = {}


def op2(op, a, b):
  if op == '&':
    if a == ZERO or b == ZERO:
      return ZERO
    if a == ONE or a == b:
      return b
    if b == ONE:
      return a
  elif op == '|':
    if a == ONE or b == ONE:
      return ONE
    if a == ZERO or a == b:
      return b
    if b == ZERO:
      return a
  elif op == '^':
    if a == ZERO:
      return b
    if b == ZERO:
      return a
    if a == b:
      return ZERO
  key = (op, a, b)
  r = _memo.get(key)
  if r is not None:
    return r
  vs = tuple(sorted(set(a.vs) | set(b.vs)))
  if len(vs) > 8:
    raise Unsupported('a bit that depends on too much')
  tt = 0
  ia = [vs.index(v) for v in a.vs]
  ib = [vs.index(v) for v in b.vs]
  for k in range(1 << len(vs)):
    x = a.tt >> sum((k >> p & 1) << j for j, p in enumerate(ia)) & 1
    y = b.tt >> sum((k >> p & 1) << j for j, p in enumerate(ib)) & 1
    tt |= (x & y if op == '&' else x | y if op == '|' else x ^ y) << k
  r = _memo[key] = _reduce(vs, tt)
  return r


def neg(a):
  return op2('^', a, ONE)


def subst(b, asg):
  for v in b.vs:
    if v in asg:
      vs = list(b.vs)
      i = vs.index(v)
      tt = pos = 0
      for k in range(1 << len(vs)):
        if (k >> i & 1) == asg[v]:
          tt |= (b.tt >> k & 1) << pos
          pos += 1
      b = _reduce(tuple(vs[:i] + vs[i + 1:]), tt)
  return b


class BV:
  __slots__ = ('b',)

  def __init__(self, b):
    self.b = tuple(b)

  def __eq__(self, o):
    return isinstance(o, BV) and self.b == o.b

  def __hash__(self):
    return hash(self.b)

  def __repr__(self):
    return '<%s>' % ' '.join(map(repr, self.b))

  def const(self):
    if all(not x.vs for x in self.b):
      return sum((x.tt & 1) << i for i, x in enumerate(self.b))
    return None


class All:
  """The boolean that holds when all of these bits do."""
  __slots__ = ('s',)

  def __init__(self, s):
    self.s = frozenset(s)

  def __eq__(self, o):
    return isinstance(o, All) and self.s == o.s

  def __hash__(self):
    return hash(self.s)

  def __repr__(self):
    return 'all%s' % sorted(map(repr, self.s))


def width(t):
  r = int_range(t)
  if r is None:
    return None
  return (r[1] - r[0]).bit_length()


def signed(t):
  r = int_range(t)
  return r is not None and r[0] < 0


def const_bv(k, w):
  return BV(ONE if k >> i & 1 else ZERO for i in range(w))


def word(name, w, first=0):
  return BV(var((name, first + i)) for i in range(w))


class Bits(containers.Containers):
  """Mixin: st.heap[('$asg',)] holds a Const(dict items) of assumed variables, ('$or',) the disjunctions known to hold."""
  DEPTH = 60
  s_Switch = statuses.Statuses.s_Switch
  LOOP = 400

  def canon(self, st):
    self.nloop = getattr(self, 'nloop', 0) + 1
    return self.nloop      # every iteration is followed: the bounds are concrete

  # --- assumptions ---
  def asg(self, st):
    c = st.heap.get(('$asg',))
    return dict(c.v) if c is not None else {}

  def ors(self, st):
    c = st.heap.get(('$or',))
    return c.v if c is not None else ()

  def assume_all(self, lits, st):
    """lits: [(bit, value)] all hold. -> state or None."""
    a = self.asg(st)
    for b, v in lits:
      b = subst(b, a)
      if not b.vs:
        if (b.tt & 1) != v:
          return None
      elif len(b.vs) == 1:
        a[b.vs[0]] = v if b.tt == 2 else 1 - v
      else:
        raise Unsupported('an assumption about a combination of bits')
    for d in self.ors(st):
      if all(not subst(b, a).vs and (subst(b, a).tt & 1) != v for b, v in d):
        return None
    s = st.clone()
    s.heap[('$asg',)] = Const(tuple(sorted(a.items())))
    return s

  def assume_some(self, lits, st):
    """At least one of the literals holds."""
    a = self.asg(st)
    lits = tuple((subst(b, a), v) for b, v in lits)
    if any(not b.vs and (b.tt & 1) == v for b, v in lits):
      return st.clone()
    lits = tuple((b, v) for b, v in lits if b.vs)
    if not lits:
      return None
    if len(lits) == 1:
      return self.assume_all(lits, st)
    s = st.clone()
    s.heap[('$or',)] = Const(self.ors(st) + (lits,))
    return s

  # --- values ---
  def bv(self, v, w):
    if isinstance(v, bool):
      v = K(int(v))
    if isinstance(v, Aff) and v.const() is not None:
      return const_bv(v.const() % (1 << w), w)
    if isinstance(v, BV):
      return BV((v.b + (ZERO,) * w)[:w])
    return None

  def simp(self, v):
    if isinstance(v, BV):
      k = v.const()
      if k is not None and len(v.b) > 1:
        return K(k)
    return v

  def arith_l(self, op, x, y, n, st):
    t = n.get('ct') or n.get('t')
    if op in ('&', '|', '^', '<<', '>>'):
      if isinstance(x, (BV, Aff, bool)) and isinstance(y, (BV, Aff, bool)):
        r = self.bit_op(op, x, y, n, t, st)
        if r is not None:
          return [(r, st)]
    if (isinstance(x, BV) or isinstance(y, BV)) and op in '+-*/%':
      raise Unsupported('arithmetic on a word of unknown bits')
    for a, b in ((x, y),):
      if op in ('/', '%') and isinstance(a, Aff) and isinstance(b, Aff) and a.const() is not None and b.const():
        w = width(t)
        p, q = a.const(), b.const()
        if w and not signed(t):
          p, q = p % (1 << w), q % (1 << w)
        r = abs(p) // abs(q)
        r = r if (p < 0) == (q < 0) else -r
        return [(K(r if op == '/' else p - q * r), st)]
    return super().arith_l(op, x, y, n, st)

  def bit_op(self, op, x, y, n, t, st):
    w = width(t)
    if w is None:
      return None
    if op in ('<<', '>>'):
      k = y.const() if isinstance(y, Aff) else int(y) if isinstance(y, bool) else None
      if k is None:
        raise Unsupported('shift by an unknown amount')
      if not 0 <= k < w:
        self.event(st, 'shift-range', n.get('l', 0), 'shift of a %d-bit word by %d' % (w, k))
        return Top(t)
      if isinstance(x, Aff) and x.const() is None:
        return None
      v = self.bv(x, w)
      if op == '<<':
        return self.simp(BV(((ZERO,) * k + v.b)[:w]))
      if signed(t):
        if v.b[w - 1] != ZERO:
          if isinstance(x, Aff):
            c = x.const()
            c = c % (1 << w)
            c = c - (1 << w) if c >> (w - 1) else c
            return K(c >> k)
          raise Unsupported('arithmetic shift of unknown bits')
      return self.simp(BV(v.b[k:] + (ZERO,) * k))
    if isinstance(x, Aff) and isinstance(y, Aff) and (x.const() is None or y.const() is None):
      return None
    a, b = self.bv(x, w), self.bv(y, w)
    if a is None or b is None:
      return None
    r = self.simp(BV(op2(op, p, q) for p, q in zip(a.b, b.b)))
    if isinstance(r, Aff) and signed(t) and r.k >= 1 << (w - 1):
      r = K(r.k - (1 << w))
    return r

  def unop(self, op, v, n, st):
    if isinstance(v, BV) and op == '~':
      w = width(n.get('ct') or n['t'])
      return self.simp(BV(neg(b) for b in self.bv(v, w).b))
    return super().unop(op, v, n, st)

  def e_Un(self, n, st):
    if n['op'] == '!':
      out = []
      for v, s in self.rv(n['e'], st):
        if isinstance(v, BV) and len(v.b) == 1:
          out.append((BV([neg(v.b[0])]), s))
        else:
          out += [(not b, s2) for b, s2 in self.truth(v, s)]
      return out
    return super().e_Un(n, st)

  def s_If(self, n, st):
    """Branches that only store words are merged bit by bit (no fork)."""
    if n.get('init') or n.get('cv') or 'cxv' in n:
      return super().s_If(n, st)
    out = []
    mark = len(st.temps)
    for v, s1 in self.rv(n['cond'], st):
      b = v.b[0] if isinstance(v, BV) and len(v.b) == 1 else None
      b = subst(b, self.asg(s1)) if b is not None else None
      if b is not None and len(b.vs) == 1:
        t, e = s1.clone(), s1.clone()
        t.env, e.env = dict(t.env), dict(e.env)
        rt = [r for s in self.end_full(mark, t) for r in self.st(n['then'], s)]
        re = [r for s in self.end_full(mark, e) for r in self.st(n.get('else'), s)] if n.get('else') else [('fall', None, s) for s in self.end_full(mark, e)]
        if len(rt) == len(re) == 1 and rt[0][0] == re[0][0] == 'fall':
          m = self.merge(b, rt[0][2], re[0][2], s1)
          if m is not None:
            m.env = s1.env
            out.append(('fall', None, m))
            continue
      for x, s2 in self.truth(v, s1):
        for s3 in self.end_full(mark, s2):
          out += self.st(n['then'] if x else n.get('else'), s3)
    return out

  def merge(self, b, s, t, base):
    if s.log != t.log or s.dead != t.dead:
      return None
    r = s.clone()
    for k in set(s.heap) | set(t.heap):
      x, y = s.heap.get(k), t.heap.get(k)
      if x == y:
        continue
      if x is None or y is None:
        if k in base.heap:
          return None
        r.heap.pop(k, None)     # a temporary of one branch
        continue
      z = self.ite(b, x, y)
      if z is None:
        return None
      r.heap[k] = z
    return r

  def ite(self, b, x, y):
    for p, q, c in ((x, y, b), (y, x, neg(b))):     # (c ? p : q)
      if q is False or isinstance(q, Aff) and q.const() == 0 and isinstance(p, (All, bool)):
        if isinstance(p, Aff) and p.const() in (0, 1):
          p = bool(p.const())
        if p is True:
          return All({c})
        if isinstance(p, All):
          return All(p.s | {c})
    w = max([len(v.b) for v in (x, y) if isinstance(v, BV)] + [64])
    if any(isinstance(v, Aff) and v.const() is not None and v.const() < 0 for v in (x, y)):
      return None
    p, q = self.bv(x, w), self.bv(y, w)
    if p is None or q is None:
      return None
    nb = neg(b)
    return self.simp(BV(op2('|', op2('&', b, i), op2('&', nb, j)) for i, j in zip(p.b, q.b)))

  def e_Value_(self, n, st):
    return [(n['v'], st)]

  def e_Cast(self, n, st):
    """Evaluates the operand once; words and constants are cast here, the rest by the base class."""
    if n['ck'] not in ('IntegralToBoolean', 'IntegralCast'):
      return super().e_Cast(n, st)
    t = n.get('ct') or n['t']
    out = []
    for v, s in self.rv(n['e'], st):
      if n['ck'] == 'IntegralToBoolean':
        if isinstance(v, BV):
          a = self.asg(s)
          q = [b for b in (subst(b, a) for b in v.b) if b != ZERO]
          if ONE in q or not q:
            out.append((bool(q), s))
            continue
          if len(q) == 1:
            out.append((BV(q), s))
            continue
        out += self.truth(v, s)
      elif isinstance(v, BV):
        f = n['e'].get('ct') or n['e'].get('t')
        if signed(f) and v.b[-1] != ZERO and width(t) > len(v.b) and len(v.b) > 1:
          raise Unsupported('sign extension of unknown bits')
        out.append((self.simp(self.bv(v, width(t))), s))
      elif isinstance(v, bool):
        out.append((K(int(v)), s))
      elif isinstance(v, Aff) and v.const() is not None and width(t):
        k = v.const() % (1 << width(t))
        out.append((K(k - (1 << width(t)) if signed(t) and k >> (width(t) - 1) else k), s))
      else:
        out += super().e_Cast(dict(n, e={'k': 'Value_', 'v': v, 't': n['e'].get('t'), 'l': n.get('l', 0)}), s)
    return out

  def quiet(self, v):
    return isinstance(v, (bool, All)) or isinstance(v, BV) and len(v.b) == 1

  def e_Bin(self, n, st):
    op = n['op']
    if op in ('&&', '||'):
      out, rest = [], []
      for v, s in self.rv(n['x'], st):
        if isinstance(v, (BV, All)) and self.quiet(v):
          ys = self.rv(n['y'], s.clone())
          if len(ys) == 1 and self.quiet(ys[0][0]) and ys[0][1].heap == s.heap and ys[0][1].log == s.log:
            y = ys[0][0]
            if op == '&&':
              z = self.conj(v, y)
            elif isinstance(v, BV) and isinstance(y, (BV, bool)):
              b = self.bv(y, 1).b[0]
              z = BV([op2('|', v.b[0], b)])
            else:
              z = None
            if z is not None:
              out.append((z, s))
              continue
        for b, s2 in self.truth(v, s):
          if b == (op == '||'):
            out.append((b, s2))
          else:
            for v2, s3 in self.rv(n['y'], s2):
              if self.quiet(v2):
                out.append((v2, s3))
                continue
              for b2, s4 in self.truth(v2, s3):
                out.append((b2, s4))
      return out
    if op in ('==', '!='):
      out = []
      for (x, y), s in self.evs([n['x'], n['y']], st, self.rv):
        r = None
        if isinstance(x, BV) or isinstance(y, BV):
          w = max(len(v.b) for v in (x, y) if isinstance(v, BV))
          a, b = self.bv(x, w), self.bv(y, w)
          if a is not None and b is not None:
            asg = self.asg(s)
            d = [z for z in (subst(op2('^', p, q), asg) for p, q in zip(a.b, b.b)) if z != ZERO]
            if len(d) == 1 and d[0] != ONE:
              r = BV([d[0] if op == '!=' else neg(d[0])])
        if r is not None:
          out.append((r, s))
        else:
          out += self.compare(op, x, y, s, n['x'].get('ct') or n['x'].get('t'))
      return out
    return super().e_Bin(n, st)

  def conj(self, x, y):
    r = set()
    for v in (x, y):
      if v is False:
        return False
      if isinstance(v, All):
        r |= v.s
      elif isinstance(v, BV):
        if v.b[0] == ZERO:
          return False
        r.add(v.b[0])
    r.discard(ONE)
    return All(r) if r else True

  def compare(self, op, x, y, st, t=''):
    if isinstance(x, BV) or isinstance(y, BV):
      if op not in ('==', '!='):
        raise Unsupported('order of words of unknown bits')
      w = max(len(v.b) for v in (x, y) if isinstance(v, BV))
      w = max(w, width(t) or 1)
      a, b = self.bv(x, w), self.bv(y, w)
      if a is None or b is None:
        raise Unsupported('comparison of a word')
      lits = []
      for p, q in zip(a.b, b.b):
        if p == q:
          continue
        if not q.vs:
          lits.append((p, q.tt & 1))
        elif not p.vs:
          lits.append((q, p.tt & 1))
        else:
          lits.append((op2('^', p, q), 0))
      return self.both(lits, op == '==', st)
    if isinstance(x, Ptr) and isinstance(y, Ptr) and op not in ('==', '!='):
      d = self.distance(x, y)
      if d is None or d.const() is None:
        raise Unsupported('order of pointers')
      x, y, t = d, K(0), 'long'
    if isinstance(x, Aff) and isinstance(y, Aff) and x.const() is not None and y.const() is not None:
      w = width(t)
      a, b = x.const(), y.const()
      if w:
        if signed(t):
          h = 1 << (w - 1)
          a, b = (a + h) % (1 << w) - h, (b + h) % (1 << w) - h
        else:
          a, b = a % (1 << w), b % (1 << w)
      return [({'<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b, '==': a == b, '!=': a != b}[op], st)]
    if isinstance(x, Aff) and isinstance(y, Aff):
      r = self.compare_counts(op, x.add(y, -1), st)
      if r is not None:
        return r
    return super().compare(op, x, y, st, t)

  def compare_counts(self, op, d, st):
    """A number of set bits against its largest or smallest value."""
    if not d.c or any(not (isinstance(s, tuple) and s and s[0] == 'bit') for s in d.c):
      return None
    a = self.asg(st)
    k, c = d.k, {}
    for s, v in d.c.items():
      x = a.get(s[1])
      if x is None:
        c[s] = v
      else:
        k += v * x
    lo, hi = k + sum(v for v in c.values() if v < 0), k + sum(v for v in c.values() if v > 0)
    known = {'<': (hi < 0, lo >= 0), '<=': (hi <= 0, lo > 0), '>': (lo > 0, hi <= 0), '>=': (lo >= 0, hi < 0), '==': (lo == hi == 0, lo > 0 or hi < 0), '!=': (lo > 0 or hi < 0, lo == hi == 0)}[op]
    if known[0] or known[1]:
      return [(known[0], st)]
    top = {s: int(v > 0) for s, v in c.items()}
    if hi == 0 and op in ('<', '>=', '==', '!='):
      lits = [(var(s[1]), x) for s, x in top.items()]
      return self.both(lits, op in ('>=', '=='), st)
    if lo == 0 and op in ('>', '<=', '==', '!='):
      lits = [(var(s[1]), 1 - x) for s, x in top.items()]
      return self.both(lits, op in ('<=', '=='), st)
    return None

  def both(self, lits, pos, st):
    """Fork on the conjunction of lits; `pos`: the value when it holds."""
    a = self.asg(st)
    lits = [(subst(b, a), v) for b, v in lits]
    if any(not b.vs and (b.tt & 1) != v for b, v in lits):
      return [(not pos, st)]
    lits = [(b, v) for b, v in lits if b.vs]
    if not lits:
      return [(pos, st)]
    self.forks = getattr(self, 'forks', 0) + 1
    if self.forks > 1500:
      raise Unsupported('too many cases')
    out = []
    s = self.assume_all(lits, st)
    if s is not None:
      out.append((pos, s))
    s = self.assume_some([(b, 1 - v) for b, v in lits], st)
    if s is not None:
      out.append((not pos, s))
    return out

  def truth(self, v, st):
    if isinstance(v, All):
      return self.both([(b, 1) for b in v.s], True, st)
    if isinstance(v, BV):
      return self.both([(b, 0) for b in v.b if b != ZERO], False, st)
    return super().truth(v, st)

  # --- primitives ---
  def e_Sizeof(self, n, st):
    return [(K(int(n['val'])), st)] if 'val' in n else super().e_Sizeof(n, st)

  def construct0(self, n, args, st):
    if (n.get('cls') or '') == 'std::bitset' and not n.get('copy') and not n.get('move'):
      v = self.load(args[0], st) if args else K(0)
      if isinstance(v, (BV, Aff)):
        return [(self.bv(v, self.bitset_width(n, None) or 64), st)]
    return super().construct0(n, args, st)

  def std_model(self, name, n, obj, args, st):
    sh = T.short(name)
    cls = n.get('cls') or ''
    if cls.startswith('std::bitset<') and sh == 'operator bool':
      return [(self.load(obj, st), st)]
    if cls == 'std::bitset':
      w = self.bitset_width(n, obj)
      v = self.load(obj, st)
      if isinstance(v, Aff) and v.const() is not None:
        v = const_bv(v.const() % (1 << 64), 64)
      if isinstance(v, BV):
        if sh == 'count':
          return [(self.count(v, st), st)]
        if sh in ('operator[]', 'test'):
          i = self.load(args[0], st).const()
          if i >= len(v.b):
            self.event(st, 'shift-range', n.get('l', 0), 'bit %d of a word' % i)
            return [(Top('bool'), st)]
          return [(BV([v.b[i]]) if v.b[i].vs else bool(v.b[i].tt), st)]
        if sh in ('any', 'none'):
          return [(b == (sh == 'any'), s) for b, s in self.truth(v, st)]
        if sh in ('to_ulong', 'to_ullong'):
          return [(v, st)]
      return None
    if sh in ('__builtin_popcount', '__builtin_popcountl', '__builtin_popcountll') or name in ('std::popcount', 'absl::popcount'):
      v = self.load(args[0], st)
      if isinstance(v, Aff) and v.const() is not None:
        return [(K(bin(v.const() % (1 << 64)).count('1')), st)]
      if isinstance(v, BV):
        return [(self.count(v, st), st)]
    if sh in ('__builtin_ctz', '__builtin_ctzl', '__builtin_ctzll') or name in ('std::countr_zero', 'absl::countr_zero'):
      return self.scan(self.load(args[0], st), n, st, False)
    if sh in ('__builtin_clz', '__builtin_clzl', '__builtin_clzll') or name in ('std::countl_zero', 'absl::countl_zero'):
      return self.scan(self.load(args[0], st), n, st, True)
    if name in ('std::abs', 'abs', 'std::labs'):
      v = self.load(args[0], st)
      if isinstance(v, Aff) and v.const() is not None:
        return [(K(abs(v.const())), st)]
    if name == 'std::distance' and len(args) == 2:
      p, q = self.load(args[0], st), self.load(args[1], st)
      if isinstance(p, Ptr) and isinstance(q, Ptr):
        d = K(0) if p == q else self.distance(q, p)
        if d is not None:
          return [(d, st)]
    if name == 'std::equal' and len(args) in (3, 4):
      v = [self.load(a, st) for a in args]
      if all(isinstance(x, Ptr) for x in v):
        d = [K(0) if a == b else self.distance(b, a) for a, b in zip(v[0:len(args) - 1:2] if len(args) == 3 else v[0::2], v[1::2])]
        d = [x.const() if isinstance(x, Aff) else None for x in d]
        if d[0] is not None and None not in d:
          if len(d) == 2 and d[0] != d[1]:
            return [(False, st)]
          out, cur = [], [st]
          t = n['a'][0].get('ct') or n['a'][0].get('t') or ''
          t = t.replace('const ', '').replace('*', '').strip()
          for i in range(d[0]):
            nxt = []
            for s in cur:
              p, q = [self.load(Ref(self.shift(v[k], K(i), s).loc), s) for k in (0, 2)]
              for b, s2 in self.compare('==', p, q, s, t):
                (nxt if b else out).append(s2 if b else (False, s2))
            cur = nxt
          return out + [(True, s) for s in cur]
    r = self.ranges(name, sh, n, args, st)
    if r is not None:
      return r
    if sh == 'memset':
      p, v, size = [self.load(a, st) for a in args]
      k = v.const() % 256 if isinstance(v, Aff) else None
      if isinstance(p, Ptr) and k in (0, 255) and isinstance(size, Aff) and size.const() is not None:
        if size.const() % (self.WORD // 8):
          self.event(st, 'partial', n.get('l', 0), 'memset of %d bytes' % size.const())
        for i in range(size.const() // (self.WORD // 8)):
          self.store(self.shift(p, K(i), st).loc, K((1 << self.WORD) - 1 if k else 0), st)
        return [(p, st)]
    return super().std_model(name, n, obj, args, st)

  def ranges(self, name, sh, n, args, st):
    """The algorithms that copy or fill a range of words."""
    def steps(p, k):
      if not isinstance(p, Ptr):
        raise Unsupported(name)
      return [self.shift(p, K(i), st).loc for i in range(k)]
    if name in ('std::copy', 'std::copy_n', 'std::fill', 'std::fill_n', 'std::move') and len(args) >= 3 or sh in ('memcpy', 'memmove', '__builtin_memcpy', '__builtin_memmove'):
      v = [self.load(a, st) for a in args]
      if sh in ('copy', 'move', 'fill'):
        k = self.distance(v[1], v[0]) if isinstance(v[0], Ptr) and isinstance(v[1], Ptr) else None
      else:
        k = v[1] if sh in ('copy_n', 'fill_n') else v[2]
      k = k.const() if isinstance(k, Aff) else None
      if k is None:
        raise Unsupported('%s of an unknown number of words' % name)
      if sh.endswith(('memcpy', 'memmove')):
        if k % (self.WORD // 8):
          self.event(st, 'partial', n.get('l', 0), '%s of %d bytes' % (sh, k))
        k //= self.WORD // 8
      if k < 0:
        self.event(st, 'out-of-bounds', 0, '%s of %d words' % (sh, k))
        return [(v[0], st)]
      if sh in ('fill', 'fill_n'):
        x = v[2]
        for l in steps(v[0], k):
          self.store(l, x, st)
        return [(self.shift(v[0], K(k), st), st)]
      src, dst = (v[1], v[0]) if 'mem' in sh else (v[0], v[2])
      vals = [self.load(Ref(l), st) for l in steps(src, k)]
      for l, x in zip(steps(dst, k), vals):
        self.store(l, x, st)
      return [(self.shift(dst, K(k), st), st)]
    return None

  def unknown(self, n, obj, args, st):
    for a in args:
      v = self.load(a, st) if isinstance(a, (Ref, Ptr)) else a
      if isinstance(v, Ptr) and v.loc and (v.loc[0], '$words') in st.heap:
        raise Unsupported('%s on words' % (T.callee_name(n) or 'a call'))
    return super().unknown(n, obj, args, st)

  WORD = 32

  def bitset_width(self, n, obj):
    return None

  def count(self, v, st):
    a = self.asg(st)
    r = K(0)
    for b in v.b:
      b = subst(b, a)
      if not b.vs:
        r = r.add(K(b.tt & 1))
      elif len(b.vs) == 1:
        s = ('bit',) + b.vs
        st.iv[s] = (0, 1)
        r = r.add(Aff({s: 1})) if b.tt == 2 else r.add(K(1)).add(Aff({s: 1}), -1)
      else:
        raise Unsupported('count of a combination of bits')
    return r

  def scan(self, v, n, st, top):
    w = {'': 32, 'l': 64, 'll': 64}.get(T.callee_short(n).replace('__builtin_ctz', '').replace('__builtin_clz', ''), None)
    w = w or len(v.b)
    v = self.bv(v, w)
    if v is None:
      return None
    out = []
    cur = st
    order = range(w - 1, -1, -1) if top else range(w)
    for i in order:
      s = self.assume_all([(v.b[i], 1)], cur)
      if s is not None:
        out.append((K(w - 1 - i if top else i), s))
      cur = self.assume_all([(v.b[i], 0)], cur)
      if cur is None:
        return out
    self.event(cur, 'scan-of-zero', n.get('l', 0))
    out.append((Top('int'), cur))
    return out

  # --- memory ---
  def region(self, st, name, n, w=None, unknown=True):
    w = w or self.WORD
    st.heap[(name, '$words')] = K(n)
    for i in range(n):
      st.heap[(name, idx(i))] = word(name, w, i * w)
    return Ptr((name, idx(0)))

  def outside(self, loc, st):
    if len(loc) == 2 and isinstance(loc[1], tuple) and loc[1][0] == 'idx':
      n = st.heap.get((loc[0], '$words'))
      if n is not None:
        i = containers.unidx(loc[1]).const()
        return i is None or not 0 <= i < n.const()
    return False

  def load(self, v, st, t=''):
    if isinstance(v, Ref) and self.outside(v.loc, st):
      self.event(st, 'out-of-bounds', 0, 'read of word %r of %s' % (containers.unidx(v.loc[1]), v.loc[0]))
      return Top(t)
    r = super().load(v, st, t)
    if isinstance(r, BV):
      a = self.asg(st)
      if a:
        r = self.simp(BV(subst(b, a) for b in r.b))
    return r

  def store(self, loc, v, st):
    if self.outside(loc, st):
      self.event(st, 'out-of-bounds', 0, 'write of word %r of %s' % (containers.unidx(loc[1]), loc[0]))
      return
    super().store(loc, v, st)

  def bits(self, st, name, w=None):
    """All bits of a region, in order."""
    w = w or self.WORD
    out = []
    a = self.asg(st)
    for i in range(st.heap[(name, '$words')].const()):
      v = self.bv(st.heap.get((name, idx(i))), w)
      out += [None] * w if v is None else [subst(b, a) for b in v.b]
    return out
