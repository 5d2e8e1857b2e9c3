"""Buffers over symbolic words: the interpreter of bitvec plus buffer factories.

Memory from a factory is a region ('mem', k) of unknown words; the handle that
keeps it alive is Const(('owner', k)). The shared zero buffer is ('zero',)."""
import json
from absint import Aff, Ptr, Ref, Obj, Const, Top, Unsupported
import bitvec
import containers
from bitvec import BV, var
from containers import K, idx
import tree as T


class Optionals:
  """Mixin: std::optional at L is L+('$has',) and L+('$val',)."""

  def construct0(self, n, args, st):
    if (n.get('cls') or '') == 'std::optional':
      loc = st.fresh('opt')
      self.optional_set(loc, n, args, st)
      return [(Obj(loc, n), st)]
    return super().construct0(n, args, st)

  def model(self, name, n, obj, args, st):
    if (n.get('cls') or '') in ('std::optional', 'std::_Optional_base_impl'):
      o, x = (obj, args) if obj is not None or not args else (args[0], args[1:])
      r = self.optional(T.short(name), n, o, x, st) if o is not None else None
      if r is not None:
        return r
    return super().model(name, n, obj, args, st)

  # --- std::optional ---
  def optional_set(self, loc, n, args, st):
    src = args[0] if args else None
    at = src.loc if isinstance(src, Obj) else self.target(src, st) if isinstance(src, Ref) else None
    if src is None or 'nullopt' in (T.strip(n['a'][-1]).get('t') or ''):
      st.heap[loc + ('$has',)] = False
    elif at is not None and at + ('$has',) in st.heap:
      for k in ('$has', '$val'):
        self.copy_obj(at + (k,), loc + (k,), st)
    else:
      st.heap[loc + ('$has',)] = True
      if isinstance(src, Obj) or isinstance(src, Ref) and any(k[:len(at)] == at and k != at for k in st.heap):
        self.copy_obj(at, loc + ('$val',), st)
      else:
        st.heap[loc + ('$val',)] = self.load(src, st)

  def optional(self, sh, n, obj, args, st):
    loc = obj.loc if isinstance(obj, Obj) else self.target(obj, st) if isinstance(obj, Ref) else None
    if loc is None or loc + ('$has',) not in st.heap:
      return None
    if sh in ('operator bool', 'has_value'):
      return [(st.heap[loc + ('$has',)], st)]
    if sh == 'operator=':
      self.optional_set(loc, n, args, st)
      return [(obj, st)]
    if sh == 'reset':
      st.heap[loc + ('$has',)] = False
      return [(Top('void'), st)]
    if sh in ('operator*', 'value', 'operator->'):
      out = []
      for b, s in self.truth(st.heap[loc + ('$has',)], st):
        if not b:
          self.event(s, 'null-deref', n.get('l', 0), 'value of an empty optional')
        out.append((Ref(loc + ('$val',)) if sh != 'operator->' else Ptr(loc + ('$val',)), s))
      return out
    if sh == 'value_or':
      return [(Ref(loc + ('$val',)) if b else args[0], s) for b, s in self.truth(st.heap[loc + ('$has',)], st)]
    return None


class Buf(Optionals, bitvec.Bits):

  def zero_words(self):
    if not hasattr(self, '_zw'):
      v = {int(x['cv']) for f in self.F.functions + self.F.insts for x in T.walk_fn(f) if x['k'] == 'Ref' and T.short(x.get('n') or '') == 'kZeroInitializedBufferSize' and 'cv' in x}
      if len(v) != 1:
        raise Unsupported('size of the shared zero buffer')
      self._zw = v.pop() * 8 // self.WORD
    return self._zw

  def load_missing(self, loc, t, st):
    if loc and loc[0] == '$zero':
      return K(0)
    return super().load_missing(loc, t, st)

  def outside(self, loc, st):
    if loc and loc[0] == '$zero' and len(loc) == 2:
      i = containers.unidx(loc[1]).const()
      return i is None or not 0 <= i < self.zero_words()
    return super().outside(loc, st)

  def store(self, loc, v, st):
    if loc and loc[0] == '$zero' and len(loc) > 1:
      self.event(st, 'out-of-bounds', 0, 'write to the shared zero buffer')
      return
    for i in range(1, len(loc) + 1):
      if loc[:i] in st.dead:
        self.event(st, 'use-after-free', 0, loc)
        break
    super().store(loc, v, st)

  def construct0(self, n, args, st):
    if (n.get('cls') or '') in ('std::shared_ptr', 'std::__shared_ptr'):
      if not args or 'nullptr' in (n['a'][0].get('t') or ''):
        return [(Ptr(None), st)]
      v = self.load(args[0], st)
      if isinstance(v, (Ptr, Const)):
        if n.get('move') and isinstance(args[0], Ref):
          self.store(self.target(args[0], st), Ptr(None), st)
        return [(v, st)]
    if n.get('di') and not args and self.find_fn(n) is None:
      loc = st.fresh(T.short(n['cls']))
      st.heap[loc + ('$',)] = Const(n['cls'])
      this, outs = st.this, [st]
      st.this = loc
      for i in json.loads(n['di']):
        outs = [s2 for s in outs for s2 in self.ctor_init(i, loc, s)]
      for s in outs:
        s.this = this
      return [(Obj(loc, n), s) for s in outs]
    return super().construct0(n, args, st)

  def handle(self, sh, n, obj, args, st):
    if sh == 'operator=' and isinstance(obj, Ref):
      v = Ptr(None) if 'nullptr' in (n['a'][-1].get('t') or '') else self.load(args[0], st)
      if isinstance(v, (Ptr, Const)):
        src = self.target(args[0], st) if isinstance(args[0], Ref) else None
        if src is not None and T.is_move(n['a'][-1]):
          self.store(src, Ptr(None), st)
        self.store(self.target(obj, st), v, st)
        return [(obj, st)]
    v = self.load(obj, st) if obj is not None else None
    if sh == 'operator bool' and isinstance(v, (Ptr, Const)):
      return [(v != Ptr(None), st)]
    if sh == 'reset' and not args and isinstance(obj, Ref):
      self.store(self.target(obj, st), Ptr(None), st)
      return [(Top('void'), st)]
    return None

  def unknown(self, n, obj, args, st):
    """The implicit assignment of a class of the repository."""
    if n.get('op') == '=' and isinstance(obj, (Ref, Obj)) and args and isinstance(args[0], (Ref, Obj)) and self.F.records.get(n.get('cls') or '') and self.find_fn(n) is None:
      src = self.target(args[0], st) if isinstance(args[0], Ref) else args[0].loc
      dst = self.target(obj, st) if isinstance(obj, Ref) else obj.loc
      if src != dst:
        self.copy_obj(src, dst, st)
      return [(obj, st)]
    return super().unknown(n, obj, args, st)

  def container_ctor(self, n, args, st):
    """A span over any class with data() and size()."""
    if (n.get('cls') or '') == 'absl::Span' and len(args) == 1 and n.get('iu') and isinstance(args[0], (Ref, Obj)):
      loc = self.target(args[0], st) if isinstance(args[0], Ref) else args[0].loc
      if self.kind(loc, st) is None:
        fs = {}
        for f in self.F.insts + self.F.functions:
          if f['n'].rsplit('::', 1)[-1] in ('data', 'size') and f.get('clsu') and f['clsu'][2:] in n['iu'] and f.get('body'):
            fs[f['n'].rsplit('::', 1)[-1]] = f
        if len(fs) == 2:
          (p, st), = self.call_fn(fs['data'], loc, [], st)
          (k, st), = self.call_fn(fs['size'], loc, [], st)
          r = st.fresh('span')
          self.new_span(st, r, p, k)
          return [(Obj(r, n), st)]
    return super().container_ctor(n, args, st)

  def new_mem(self, st, words):
    k = len([1 for e in st.log if e[0] == 'alloc'])
    name = 'mem%d' % k
    p = self.region(st, name, words)
    self.event(st, 'alloc', name, words)
    return p, Const(('owner', name))

  def tuple2(self, st, a, b):
    loc = st.fresh('tuple')
    st.heap[loc + (('tup', 0),)] = a
    st.heap[loc + (('tup', 1),)] = b
    return Obj(loc)

  def words_of(self, v):
    k = v.const() if isinstance(v, Aff) else None
    if k is None:
      raise Unsupported('size of a buffer')
    k %= 1 << 64
    if k > 1 << 24:
      raise Unsupported('size of a buffer: %d bytes' % k)
    return k * 8 // self.WORD

  def model(self, name, n, obj, args, st):
    sh = T.short(name)
    if sh == 'CreateRawBuffer':
      p, o = self.new_mem(st, self.words_of(self.load(args[0], st)))
      return [(self.tuple2(st, o, p), st)]
    if sh == 'ReallocRawBuffer':
      o, d, a, b = [self.load(x, st) for x in args]
      a, b = self.words_of(a), self.words_of(b)
      if not isinstance(d, Ptr) or not isinstance(o, Const) or d.loc != (o.v[1], idx(0)):
        self.event(st, 'bad-realloc', 0, 'the memory and its handle differ')
        return [(Top('tuple'), st)]
      old = st.heap.get((o.v[1], '$words')).const()
      if a != old:
        self.event(st, 'bad-realloc', 0, '%d words are passed as %d' % (old, a))
      p, o2 = self.new_mem(st, b)
      for i in range(min(a, b)):
        st.heap[(p.loc[0], idx(i))] = st.heap[(o.v[1], idx(i))]
      self.event(st, 'released', o.v[1])
      st.dead.add((o.v[1],))
      return [(self.tuple2(st, o2, p), st)]
    if sh == 'GetHeapBufferFactory':
      return [(Ptr(('$heap',)), st)]
    if sh == 'GetZeroInitializedBuffer':
      return [(Ptr(('$zero', idx(0))), st)]
    if name == 'witness::log':
      self.event(st, 'log', self.load(args[0], st), self.load(args[1], st))
      return [(Top('void'), st)]
    if name == 'witness::input':
      i = self.load(args[0], st)
      if not isinstance(i, Aff) or i.const() is None:
        raise Unsupported('index of an input')
      self.event(st, 'input', i.const())
      return [(self.input(i.const(), st), st)]
    cls = n.get('cls') or ''
    if cls in ('std::shared_ptr', 'std::__shared_ptr') and obj is not None:
      r = self.handle(sh, n, obj, args, st)
      if r is not None:
        return r
    if name in ('std::operator==', 'std::operator!=') and len(args) == 2:
      null = [T.strip(a).get('k') == 'Null_' or 'nullptr' in (a.get('t') or '') for a in n['a']]
      v = [self.load(a, st) for a, z in zip(args, null) if not z]
      if len(v) == 1 and isinstance(v[0], (Ptr, Const)):
        return [((v[0] == Ptr(None)) == name.endswith('=='), st)]
    return super().model(name, n, obj, args, st)

  def input(self, i, st):
    return BV([var(('in', i))])
