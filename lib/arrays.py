"""Abstract runs over buffers and dense arrays: shared by B01 and D03."""
import absint
from absint import Aff, Ptr, Ref, Obj, Const, Top, Fn, Unsupported
import bitvec
from bitvec import BV, ONE, ZERO, var, op2, subst
from containers import K, idx
import facts
import rawbuf
import tree as T

W = 32
EVENTS = ('out-of-bounds', 'shift-range', 'scan-of-zero', 'null-deref', 'partial', 'use-after-free', 'bad-realloc', 'bad-subspan')
F = None
FN = {}


def setup(f):
  global F
  F = f
  FN.clear()
  for x in f.functions:
    if x['n'].startswith('witness::') and x['kind'] == 'plain':
      FN[T.short(x['n'])] = x


def site(name, prefixes):
  """file:line of the library function a witness is about."""
  for x in T.walk_fn(FN[name]):
    c = x.get('fn') or x.get('cls') or ''
    for f in F.functions + F.insts:
      if f['file'].startswith(prefixes) and (f['n'] == c or f['n'].startswith(c + '::')) and c.startswith('arolla::'):
        return '%s:%d' % (f['file'], f['l'])
  return prefixes[0] if isinstance(prefixes, tuple) else prefixes


def elem(name, i):
  return bitvec.word(name, W, i * W)


class Interp(rawbuf.Buf):

  def model(self, name, n, obj, args, st):
    sh = T.short(name)
    if sh in ('CreateRawBuffer', 'ReallocRawBuffer') and obj is not None:
      v = self.load(obj, st) if isinstance(obj, Ref) else obj
      self.event(st, 'factory', v.loc if isinstance(v, (Ptr, Obj, Ref)) else (obj.loc if isinstance(obj, Ref) else None))
    if name == 'witness::value':
      i = self.load(args[0], st)
      if not isinstance(i, Aff) or i.const() is None:
        raise Unsupported('index of a value')
      return [(elem('val', i.const()), st)]
    if name == 'witness::order':
      i = self.load(args[0], st)
      return [(K(self.ORDER[i.const()]), st)]
    if name == 'witness::seen':
      self.event(st, 'seen', *[self.load(a, st) for a in args])
      return [(Top('void'), st)]
    if name in ('std::generate', 'std::generate_n'):
      a, b, fn = [self.load(x, st) for x in args]
      k = self.distance(b, a) if name.endswith('generate') else b
      k = k.const() if isinstance(k, Aff) else None
      if k is None or not isinstance(fn, Fn):
        raise Unsupported(name)
      for i in range(k):
        outs = self.apply_lambda(fn, [], st)
        if len(outs) != 1:
          raise Unsupported(name)
        v, st = outs[0]
        self.store(self.shift(a, K(i), st).loc, self.load(v, st), st)
      return [(Top('void'), st)]
    return super().model(name, n, obj, args, st)


class Run:
  INTERP = Interp

  def __init__(self, order=()):
    self.it = self.INTERP(F)
    self.it.WORD = W
    self.it.ORDER = order
    self.it.bitset_width = lambda n, obj: W
    self.st = absint.State()
    self.fac = Ptr(('$fac',))

  def make(self, fn, args, name):
    (v, self.st), = self.it.call_fn(FN[fn], None, args, self.st)
    loc = (name,)
    self.it.copy_obj(v.loc, loc, self.st)
    return Ref(loc)

  def buffer(self, name, n, owned=True, kind='b', null=True, first=0):
    """A buffer of n elements over a region of exactly that size."""
    p = self.it.region(self.st, name, n + first, W) if n or not null else Ptr(None)
    if first:
      p = self.it.shift(p, K(first), self.st)
    (sp, self.st), = self.it.call_fn(FN[kind + '_span'], None, [p, K(n)], self.st)
    return self.make(kind + '_make', [Const(('owner', name)) if owned and (n or not null) else Ptr(None), sp], name + '$buf')

  def array(self, name, n, off, bitmap=True, owned=True):
    v = self.buffer(name, n, owned)
    m = self.buffer(name + 'm', (n + off + W - 1) // W if bitmap else 0, owned, 'm')
    return self.make('a_make', [v, m, K(off)], name + '$arr')

  def call(self, fn, *args):
    outs = self.it.call_fn(FN[fn], None, [a if isinstance(a, (Ref, Ptr, Obj, bool, Aff)) else K(a) for a in args], self.st)
    if not outs:
      raise facts.AnalysisBroken('%s does not return' % fn)
    return outs

  # --- reading results ---
  def num(self, v, s):
    v = self.it.load(v, s)
    if isinstance(v, bool):
      v = K(int(v))
    if isinstance(v, BV):
      v = self.it.count(v, s) if len(v.b) == 1 else v
    if not isinstance(v, Aff):
      raise Unsupported('number %r' % (v,))
    return v

  def handle(self, loc, s):
    return [x for k, x in s.heap.items() if k[:len(loc)] == loc and isinstance(x, Const) and isinstance(x.v, tuple) and x.v[0] == 'owner']

  def show(self, v, s, kind='b'):
    """-> (pointer, [element], [owner name]) of a buffer value."""
    loc = v.loc
    (p, s), = self.it.call_fn(FN[kind + '_begin'], None, [Ref(loc)], s)
    (n, s), = self.it.call_fn(FN[kind + '_len'], None, [Ref(loc)], s)
    n = n.const()
    if n is None:
      raise Unsupported('size of a buffer')
    out = []
    for i in range(n):
      l = self.it.shift(p, K(i), s).loc if p.loc else None
      out.append(None if l is None or l[:1] in s.dead else self.it.bv(self.it.load(Ref(l), s, 'unsigned int'), W))
    return p, out, [h.v[1] for h in self.handle(loc, s)]

  def alive(self, p, owners, n, what):
    """The handle of a buffer keeps what it shows alive."""
    if n and p.loc and p.loc[0] != '$zero' and owners != [p.loc[0]]:
      return ['%s: the memory shown is not kept alive by its handle' % what]
    return []

  def factories(self, s, what):
    if any(e[1] != self.fac.loc for e in s.log if e[0] == 'factory'):
      return ['%s: memory from another factory than the one given' % what]
    return []

  def faults(self, s):
    return sorted({'%s (%s)' % (e[0], e[2]) if len(e) > 2 else e[0] for e in s.log if e[0] in EVENTS})

  def bit(self, v, s):
    if isinstance(v, bool):
      return ONE if v else ZERO
    if isinstance(v, Aff) and v.const() in (0, 1):
      return ONE if v.const() else ZERO
    if isinstance(v, BV):
      r = [subst(b, self.it.asg(s)) for b in v.b]
      if all(b == ZERO for b in r[1:]):
        return r[0]
    raise Unsupported('value of a bit: %r' % (v,))

  def same(self, got, want, s, what):
    """got: [BV or None], want: [BV or None for any]"""
    if len(got) != len(want):
      return ['%s: %d elements instead of %d' % (what, len(got), len(want))]
    a = self.it.asg(s)
    for i, (g, w) in enumerate(zip(got, want)):
      if w is not None and (g is None or [subst(b, a) for b in g.b] != [subst(b, a) for b in w.b]):
        return ['%s: element %d is not the one expected' % (what, i)]
    return []
