"""Raw memory for the abstract interpreter: addresses are affine terms."""
from absint import Aff, Ptr, Ref, Const, Top, Fn, Unsupported
import containers
from containers import K
import tree as T

BIG = 2**40


class Raw(containers.Containers):
  DEPTH = 40
  SIZES = {}

  def raw(self, a):
    return Ptr(('raw', a))

  PTR = {'char': 1, 'unsigned char': 1, 'signed char': 1, 'std::byte': 1, 'std::uint8_t': 1, 'uint8_t': 1, 'void': 1}

  def binop(self, op, x, y, n, st):
    for a, b, m in ((x, y, 'x'), (y, x, 'y')):
      if self.is_raw(a) and isinstance(b, Aff) and op in ('+', '-'):
        k = self.pointee(n[m])
        return self.raw(a.loc[1].add(b.mul(k), 1 if op == '+' else -1))
    return super().binop(op, x, y, n, st)

  def pointee(self, e):
    t = (e.get('ct') or e.get('t') or '').replace('const ', '').rstrip(' *')
    if t in self.PTR:
      return self.PTR[t]
    t = t.split('::')[-1]
    if t in self.SIZES:
      return self.SIZES[t]
    raise Unsupported('arithmetic on pointers to ' + t)

  def e_Sub(self, n, st):
    out = []
    for (b, i), s in self.evs([n['b'], n['i']], st, self.rv):
      if self.is_raw(b):
        if not isinstance(i, Aff):
          raise Unsupported('index of a raw pointer')
        out.append((Ref(self.raw(b.loc[1].add(i.mul(self.pointee(n['b'])))).loc), s))
      else:
        return super().e_Sub(n, st)
    return out

  def is_raw(self, v):
    return isinstance(v, Ptr) and v.loc is not None and v.loc[0] == 'raw'

  def shift(self, p, d, st):
    if self.is_raw(p):
      return self.raw(p.loc[1].add(d))
    return super().shift(p, d, st)

  def distance(self, x, y):
    if self.is_raw(x) and self.is_raw(y):
      return x.loc[1].add(y.loc[1], -1)
    return super().distance(x, y)

  def e_Sizeof(self, n, st):
    if 'val' in n:
      return [(K(int(n['val'])), st)]
    return [(Top('unsigned long'), st)]

  def e_Typeid(self, n, st):
    return [(Const(('type', n.get('of'))), st)]

  def e_New(self, n, st):
    if not n.get('place'):
      return super().e_New(n, st)
    out = []
    pl = n['c'][-1] if 'c' in n else None
    args = T.children(n)
    place = [x for x in args if (x.get('t') or '').endswith('*')]
    if not place:
      raise Unsupported('placement new')
    for v, s in self.rv(place[-1], st):
      if not self.is_raw(v):
        raise Unsupported('placement new outside the block')
      self.event(s, 'ctor', n['t'].rstrip(' *').split('::')[-1], v.loc[1])
      out.append((v, s))
    return out

  def model(self, name, n, obj, args, st):
    sh = T.short(name)
    cls = n.get('cls') or ''
    if sh.startswith('~') and obj is not None:
      o = self.load(obj, st) if isinstance(obj, Ref) else obj
      if self.is_raw(o):
        self.event(st, 'dtor1', T.short(cls), o.loc[1])
        return [(Top('void'), st)]
    if name in ('std::destroy_at', 'std::destroy') and args:
      o = self.load(args[0], st)
      if self.is_raw(o):
        t = (n['a'][0].get('t') or '').rstrip(' *').split('::')[-1]
        self.event(st, 'dtor1', t, o.loc[1])
        return [(Top('void'), st)]
    if sh == 'memset':
      p, v, size = [self.load(a, st) for a in args]
      if self.is_raw(p) and isinstance(v, Aff) and v.const() == 0:
        self.event(st, 'zero', p.loc[1], size)
        return [(p, st)]
      raise Unsupported('memset')
    if sh == 'operator new':
      vals = [self.load(a, st) for a in args]
      base = st.sym('new%d' % len(st.iv), 1, BIG)
      al = vals[1] if len(vals) > 1 and 'nothrow' not in repr(args[1]) else K(16)
      self.event(st, 'alloc', base, vals[0], al)
      return [(self.raw(base), st)]
    if sh == 'operator delete':
      p = self.load(args[0], st)
      if isinstance(p, Ptr) and p.loc is None:
        return [(Top('void'), st)]
      if not self.is_raw(p):
        raise Unsupported('operator delete')
      al = [self.load(a, st) for a in args[1:]]
      al = [a for a, x in zip(al, n['a'][1:]) if 'align_val_t' in (x.get('t') or '')]
      self.event(st, 'free', p.loc[1], al[0] if al else K(16))
      return [(Top('void'), st)]
    if cls == 'std::type_index' and n['k'] == 'Ctor':
      return [(self.load(args[0], st), st)]
    if sh in ('RegisterSlot', 'RegisterSubslots', 'RegisterUnsafeSlot'):
      return [(Top('absl::Status'), st)]    # bookkeeping of the debug type checks
    if cls.startswith(('absl::Status', 'absl::log_shim', 'absl::lts')) and n['k'] in ('Ctor', 'MCall', 'OCall'):
      return [(Top(n.get('t')), st)]
    if sh == 'HasField' or sh == 'DCheckFieldType':
      return [(Top('void'), st)]
    if n['k'] == 'MCall' and (n.get('m') or '').startswith('operator') and '(*)' in n['m'] and isinstance(self.load(obj, st), Fn):
      return [(self.load(obj, st), st)]
    if cls == 'std::integral_constant' or 'is_bzero_constructible' in cls:
      return [(Top('bool'), st)]
    if name == 'std::make_index_sequence' or cls in ('std::integer_sequence', 'std::index_sequence'):
      return [(Top(''), st)]
    return None

  def e_Ref(self, n, st):
    if n.get('n') == 'std::nothrow':
      return [(Const('nothrow'), st)]
    return super().e_Ref(n, st)

  def pointee_dtor(self, n, loc, p, st):
    return [st]
