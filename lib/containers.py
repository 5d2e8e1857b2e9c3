"""Models of standard containers and smart pointers for the abstract interpreter.

Sequences and maps have a known number of entries whose contents are abstract;
the clients enumerate the sizes.  A location L that holds a container has
L+('$c',) = Const(kind); elements live below it, so that absint copies, moves
and passes containers like any other object.

  vec:  L+('len',) = Aff const, elements at L+(('idx', key),)
  map:  L+('n',) = Aff const, entries at L+(('ent', i), 'first'|'second'); sets keep 'first' only.
        Entries are never reordered; erased ones are marked L+(('ent', i), '$gone').
  span: L+('ptr',) = Ptr to element 0, L+('len',)
  up:   unique_ptr, L+('p',) = Ptr, L+('del',...) = deleter
Pointers to elements are Ptr(L+(('idx', key),)); Ptr + n moves the index.
"""
import re

import absint
from absint import Aff, Ptr, Ref, Obj, Const, Top, Fn, Unsupported
import tree as T

VEC = ('std::vector', 'absl::InlinedVector')
MAP = re.compile(r'(flat_hash_map|node_hash_map|btree_map|flat_hash_set|node_hash_set|btree_set|unordered_map|unordered_set|std::map|std::set)\b|container_internal::(raw_hash|btree|set_container|map_container)')
SETS = re.compile(r'hash_set<|btree_set<|unordered_set<|std::set<')
K = lambda i: Aff((), i)


def idx(i):
  return ('idx', i.key() if isinstance(i, Aff) else K(i).key())


def unidx(p):
  return Aff(dict(p[1][0]), p[1][1])


class Containers(absint.Interp):

  # --- pointers to elements ---------------------------------------------------
  def binop(self, op, x, y, n, st):
    if op in ('+', '-') and isinstance(x, Ptr) and isinstance(y, Aff):
      r = self.shift(x, y if op == '+' else y.mul(-1), st)
      if r is not None:
        return r
    if op == '+' and isinstance(y, Ptr) and isinstance(x, Aff):
      r = self.shift(y, x, st)
      if r is not None:
        return r
    if op == '-' and isinstance(x, Ptr) and isinstance(y, Ptr):
      r = self.distance(x, y)
      if r is not None:
        return r
    if isinstance(x, Aff) and isinstance(y, Aff):
      r = self.int_op(op, x, y, st)
      if r is not None:
        return r
    return super().binop(op, x, y, n, st)

  def distance(self, x, y):
    if x.loc and y.loc and x.loc[:-1] == y.loc[:-1] and isinstance(x.loc[-1], tuple) and isinstance(y.loc[-1], tuple) and x.loc[-1][0] == y.loc[-1][0] == 'idx':
      return unidx(x.loc[-1]).add(unidx(y.loc[-1]), -1)
    return None

  def int_op(self, op, x, y, st):
    """Divisions and masks that are exact on affine forms of non-negative value."""
    d = y.const()
    if d is None:
      return None
    if op == '&':
      if d < 0:
        d += 2**64
      low = (~d) & (2**64 - 1)
      if low == 0:
        return x
      if d & (d + 1) == 0:       # x & (2^k - 1)
        m = d + 1
        return self.int_op('%', x, K(m), st)
      if low & (low + 1) == 0:   # x & ~(2^k - 1)
        r = self.int_op('%', x, K(low + 1), st)
        return None if r is None else x.add(r, -1)
      return None
    if d <= 0:
      return None
    if op == '>>':
      op, d = '/', 2**d
    if op in ('/', '%'):
      if absint.rng(x, st)[0] < 0:
        return None
      if all(v % d == 0 for v in x.c.values()):
        r = x.k % d
        return K(r) if op == '%' else Aff({s: v // d for s, v in x.c.items()}, (x.k - r) // d)
    return None

  def shift(self, p, d, st):
    if p.loc and isinstance(p.loc[-1], tuple) and p.loc[-1][0] == 'idx':
      return Ptr(p.loc[:-1] + (idx(unidx(p.loc[-1]).add(d)),))
    return None

  def e_Un(self, n, st):
    if n['op'] in ('++', '--'):
      out = []
      ptr = False
      for v, s in self.ev(n['e'], st):
        old = self.load(v, s, n['t'])
        if isinstance(old, Ptr) and old.loc is not None and isinstance(v, Ref):
          ptr = True
          new = self.shift(old, K(1 if n['op'] == '++' else -1), s)
          if new is None:
            new = Top(n['t'])
          self.store(self.target(v, s), new, s)
          out.append((old if n.get('post') else v, s))
        elif ptr:
          raise Unsupported('pointer step')
        else:
          out = None
          break
      if out is not None:
        return out
    return super().e_Un(n, st)

  def e_Sub(self, n, st):
    out = []
    for (b, i), s in self.evs([n['b'], n['i']], st, self.rv):
      if isinstance(b, Ptr) and b.loc is not None and isinstance(i, Aff):
        q = self.shift(b, i, s)
        if q is not None:
          out.append((Ref(q.loc), s))
          continue
      if isinstance(b, (Ptr, Obj)) and b.loc is not None:
        out.append((Ref(b.loc + (idx(i) if isinstance(i, Aff) else ('idx', repr(i)),)), s))
      else:
        out.append((Top(n['t']), s))
    return out

  # --- helpers ------------------------------------------------------------------
  def kind(self, loc, st):
    c = st.heap.get(loc + ('$c',))
    return c.v if isinstance(c, Const) else None

  def new_vec(self, st, loc, elems=()):
    st.heap[loc + ('$c',)] = Const('vec')
    st.heap[loc + ('len',)] = K(len(elems))
    for i, v in enumerate(elems):
      self.init_at(loc + (idx(i),), v, st)

  def new_map(self, st, loc, entries=(), is_set=False):
    st.heap[loc + ('$c',)] = Const('set' if is_set else 'map')
    st.heap[loc + ('n',)] = K(len(entries))
    for i, e in enumerate(entries):
      if is_set:
        self.init_at(loc + (('ent', i), 'first'), e, st)
      else:
        self.init_at(loc + (('ent', i), 'first'), e[0], st)
        self.init_at(loc + (('ent', i), 'second'), e[1], st)

  def new_span(self, st, loc, ptr, ln):
    st.heap[loc + ('$c',)] = Const('span')
    st.heap[loc + ('ptr',)] = ptr
    st.heap[loc + ('len',)] = ln

  def size_of(self, loc, st):
    v = st.heap.get(loc + ('len',))
    k = v.const() if isinstance(v, Aff) else None
    if k is None:
      raise Unsupported('container of unknown size')
    return k

  def entries(self, loc, st):
    n = st.heap.get(loc + ('n',))
    if not isinstance(n, Aff) or n.const() is None:
      raise Unsupported('map of unknown size')
    return [i for i in range(n.const()) if (loc + (('ent', i), '$gone')) not in st.heap]

  def elements(self, v, st):
    """Locations of the elements of a container value, in order, or None."""
    if isinstance(v, Ref):
      v = Ref(self.target(v, st))
    loc = v.loc if isinstance(v, (Ref, Obj)) else None
    if loc is None:
      return None
    k = self.kind(loc, st)
    if k == 'vec':
      return [loc + (idx(i),) for i in range(self.size_of(loc, st))]
    if k == 'span':
      p = st.heap[loc + ('ptr',)]
      n = self.size_of(loc, st)
      if n == 0:
        return []
      return [self.shift(p, K(i), st).loc for i in range(n)]
    if k == 'map':
      return [loc + (('ent', i),) for i in self.entries(loc, st)]
    if k == 'set':
      return [loc + (('ent', i), 'first') for i in self.entries(loc, st)]
    n = 0
    while any(q[:len(loc) + 1] == loc + (idx(n),) for q in st.heap) or loc + (('idx', n),) in st.heap:
      n += 1
    if n:   # an initializer list
      return [loc + (idx(i),) if any(q[:len(loc) + 1] == loc + (idx(i),) for q in st.heap) else loc + (('idx', i),) for i in range(n)]
    return None

  def e_Init(self, n, st):
    t = n.get('ct') or n.get('t') or ''
    el = None
    if n.get('cls') == 'std::array':
      el = n['c'][0]['c'] if len(n['c']) == 1 and n['c'][0]['k'] == 'Init' and (not n['c'][0].get('cls') or '__array_traits' in n['c'][0]['cls']) else n['c']
    elif 'initializer_list<' in t:
      el = n['c']
    if el is None:
      return super().e_Init(n, st)
    out = []
    for vs, s in self.evs(el, st, self.ev):
      loc = s.fresh('array')
      self.new_vec(s, loc, [])
      s.heap[loc + ('len',)] = K(len(vs))
      for i, v in enumerate(vs):
        self.consume(v, s)
        self.init_at(loc + (idx(i),), self.load(v, s), s)
      out.append((Obj(loc, n), s))
    return out

  # --- range for ------------------------------------------------------------------
  def s_RangeFor(self, n, st):
    out = []
    states = [st]
    if n.get('init'):
      states = [s for _, _, s in self.st(n['init'], st)]
    for s0 in states:
      for r, s in self.ev(n['range'], s0):
        el = self.elements(r, s)
        if el is None:
          raise Unsupported('range for over an unknown collection')
        cur = [s]
        for loc in el:
          nxt = []
          for s1 in cur:
            for s2 in self.bind_element(n['var'], loc, s1):
              for kind, v, s3 in self.st(n['body'], s2):
                if kind == 'brk':
                  out.append(('fall', None, s3))
                elif kind in ('fall', 'cont'):
                  nxt.append(s3)
                else:
                  out.append((kind, v, s3))
          cur = nxt
        out += [('fall', None, s1) for s1 in cur]
    return out

  def bind_element(self, var, loc, st):
    if var.get('b'):
      parts = self.parts(loc, len(var['b']), st)
      for b, l in zip(var['b'], parts):
        st.env[b['d']] = l
      return [st]
    t = var['t'].rstrip()
    if t.endswith('&'):
      st.env[var['d']] = loc
      return [st]
    new = st.fresh(var['n'])
    self.init_at(new, self.load(Ref(loc), st), st)
    st.env[var['d']] = new
    return [st]

  def parts(self, loc, n, st):
    if loc + ('first',) in st.heap or any(q[:len(loc) + 1] == loc + ('first',) for q in st.heap):
      return [loc + ('first',), loc + ('second',)]
    return [loc + (('tup', i),) for i in range(n)]

  def declare_bindings(self, v, st):
    if all(b.get('e') is not None for b in v['b']):
      c = T.strip(v['b'][0]['e'])
      if c['k'] in ('Mem', 'Ref'):
        return super().declare_bindings(v, st)
    w = dict(v)
    w.pop('b')
    w['n'] = 'bound'
    out = []
    for s in self.declare(w, st):
      loc = s.env[v['d']]
      for b, l in zip(v['b'], self.parts(loc, len(v['b']), s)):
        s.env[b['d']] = self.target(Ref(l), s)
      out.append(s)
    return out

  # --- dispatch ---------------------------------------------------------------------
  def std_model(self, name, n, obj, args, st):
    r = self.containers(name, n, obj, args, st)
    return r if r is not None else super().std_model(name, n, obj, args, st)

  def construct0(self, n, args, st):
    if n.get('move') and args and isinstance(args[0], (Ref, Obj)) and not (isinstance(args[0], Obj) and args[0].node is not None):
      fn = self.find_fn(n)
      if fn is None or fn.get('dflt') or fn.get('body') is None:
        src = self.target(args[0], st) if isinstance(args[0], Ref) else args[0].loc
        if any(k[:len(src)] == src and k[-1] == '$c' for k in st.heap):
          loc = st.fresh(T.short(n['cls']))
          self.copy_obj(src, loc, st)
          self.moved_from(src, st)
          return [(Obj(loc, n), st)]
    r = self.container_ctor(n, args, st)
    return r if r is not None else super().construct0(n, args, st)

  def moved_from(self, src, st):
    """The standard containers and unique_ptr below `src` are left empty."""
    for k in list(st.heap):
      if k[:len(src)] == src and k and k[-1] == '$c' and k in st.heap:
        l = k[:-1]
        v = st.heap[k].v
        if v == 'up':
          st.heap[l + ('p',)] = Ptr(None)
        elif v in ('vec', 'map', 'set'):
          for q in [q for q in st.heap if q[:len(l)] == l and len(q) > len(l)]:
            del st.heap[q]
          (self.new_vec if v == 'vec' else lambda s, x: self.new_map(s, x, (), v == 'set'))(st, l)

  def container_ctor(self, n, args, st):
    cls = n.get('cls') or ''
    t = n.get('ct') or n.get('t') or ''
    if n.get('copy') or n.get('move'):
      return None
    if cls in VEC:
      loc = st.fresh('vec')
      el = []
      if args:
        a = args[0]
        if isinstance(a, (Ref, Obj)) and self.elements(a, st) is not None:
          el = [self.load(Ref(l), st) for l in self.elements(a, st)]
        else:
          k = self.load(a, st)
          if isinstance(k, Aff) and k.const() is not None:
            el = [self.load(args[1], st) if len(args) > 1 else K(0)] * k.const()
          else:
            raise Unsupported('vector of unknown size')
      self.new_vec(st, loc, el)
      return [(Obj(loc, n), st)]
    if MAP.search(cls) and 'iterator' not in cls:
      loc = st.fresh('map')
      if args and not isinstance(self.load(args[0], st), Top):
        raise Unsupported('map constructor')
      self.new_map(st, loc, (), bool(SETS.search(t)))
      return [(Obj(loc, n), st)]
    if cls in ('absl::Span', 'std::initializer_list', 'std::span'):
      loc = st.fresh('span')
      if not args:
        self.new_span(st, loc, Ptr(None), K(0))
        return [(Obj(loc, n), st)]
      if len(args) >= 2:
        self.new_span(st, loc, self.load(args[0], st), self.load(args[1], st))
        return [(Obj(loc, n), st)]
      src = self.target(args[0], st) if isinstance(args[0], Ref) else args[0].loc
      k = self.kind(src, st)
      if k == 'vec':
        self.new_span(st, loc, Ptr(src + (idx(0),)), st.heap[src + ('len',)])
      elif k == 'span':
        self.copy_obj(src, loc, st)
      else:
        el = self.elements(args[0], st)
        if el is None:
          raise Unsupported('span of an unknown collection')
        self.new_span(st, loc, Ptr(el[0]) if el else Ptr(None), K(len(el)))
      return [(Obj(loc, n), st)]
    if 'iterator' in cls and len(args) == 1:
      v = self.load(args[0], st)
      if isinstance(v, Const) and isinstance(v.v, tuple) and v.v and v.v[0] in ('it', 'mit'):
        return [(v, st)]
    if cls == 'std::pair' and len(args) == 2:
      loc = st.fresh('pair')
      self.init_at(loc + ('first',), self.load(args[0], st), st)
      self.init_at(loc + ('second',), self.load(args[1], st), st)
      st.heap[loc + ('$',)] = Const(cls)
      return [(Obj(loc, n), st)]
    if cls == 'std::unique_ptr':
      loc = st.fresh('up')
      st.heap[loc + ('$c',)] = Const('up')
      p = self.load(args[0], st) if args else Ptr(None)
      st.heap[loc + ('p',)] = p if isinstance(p, Ptr) else Ptr(None) if not args or 'nullptr' in (n['a'][0].get('t') or '') else p
      if len(args) > 1:
        self.init_at(loc + ('del',), self.load(args[1], st), st)
      return [(Obj(loc, n), st)]
    return None

  def containers(self, name, n, obj, args, st):
    sh = T.short(name)
    cls = n.get('cls') or ''
    if sh == 'tie' and name == 'std::tie':
      loc = st.fresh('tie')
      for i, a in enumerate(args):
        st.heap[loc + (('tup', i),)] = Ref(self.target(a, st))
      st.heap[loc + ('$c',)] = Const('tie')
      return [(Obj(loc), st)]
    if name in ('std::make_pair',):
      loc = st.fresh('pair')
      self.init_at(loc + ('first',), self.load(args[0], st), st)
      self.init_at(loc + ('second',), self.load(args[1], st), st)
      return [(Obj(loc), st)]
    if cls == 'std::tuple' and sh == 'operator=' and isinstance(obj, (Ref, Obj)) and self.kind(obj.loc, st) == 'tie':
      src = args[0].loc
      for i, l in enumerate(self.parts(src, 2, st)):
        v = self.load(Ref(l), st)
        d = st.heap[obj.loc + (('tup', i),)].loc
        self.store(d, v, st)
      return [(obj, st)]
    if sh in ('operator==', 'operator!=') and obj is None and len(args) == 2:
      for x, y in ((args[0], args[1]), (args[1], args[0])):
        if isinstance(x, (Ref, Obj)):
          l = self.target(x, st) if isinstance(x, Ref) else x.loc
          if self.kind(l, st) == 'up':
            q = y.loc if isinstance(y, (Ref, Obj)) else None
            b = st.heap[l + ('p',)] == (st.heap[q + ('p',)] if q and self.kind(q, st) == 'up' else Ptr(None))
            return [(b == (sh == 'operator=='), st)]
    # iterators are constants
    r = self.iterators(name, sh, n, obj, args, st)
    if r is not None:
      return r
    loc = None
    if obj is not None:
      o = self.load(obj, st) if n.get('arrow') else obj
      if isinstance(o, Ptr):
        loc = o.loc
      elif isinstance(o, Ref):
        loc = self.target(o, st)
      elif isinstance(o, Obj):
        loc = o.loc
    if loc is None:
      return self.free(name, sh, n, args, st)
    k = self.kind(loc, st)
    if k is None:
      return None
    f = {'vec': self.vec, 'map': self.map, 'set': self.map, 'span': self.span, 'up': self.up}.get(k)
    if f is None:
      return None
    if sh == 'operator=' and args and isinstance(args[0], (Ref, Obj)):
      src = self.target(args[0], st) if isinstance(args[0], Ref) else args[0].loc
      if k == 'up':
        if 'nullptr' in (n['a'][-1].get('t') or ''):
          return self.up('reset', n, loc, [], st)
        newp = st.heap[src + ('p',)]
        sub = {q[len(src):]: v for q, v in st.heap.items() if q[:len(src) + 1] == src + ('del',)}
        st.heap[src + ('p',)] = Ptr(None)
        old = st.heap[loc + ('p',)]
        st.heap[loc + ('p',)] = newp
        out = self.free_up(n, loc, old, st)
        for _, s in out:
          for q, v in sub.items():
            s.heap[loc + q] = v
        return [(obj, s) for _, s in out]
      if src != loc:
        self.copy_obj(src, loc, st)
      return [(obj, st)]
    r = f(sh, n, loc, args, st)
    if r is None:
      raise Unsupported('%s operation %s' % (k, sh))
    return r

  def free(self, name, sh, n, args, st):
    if name in ('std::for_each', 'absl::c_for_each'):
      el = None
      if name == 'std::for_each':
        a, b = self.load(args[0], st), self.load(args[1], st)
        if isinstance(a, Const) and isinstance(b, Const) and a.v[0] == b.v[0] == 'it' and a.v[1] == b.v[1]:
          el = [a.v[1] + (idx(i),) for i in range(a.v[2], b.v[2])]
        elif isinstance(a, Ptr) and isinstance(b, Ptr):
          d = self.distance(b, a)
          if d is not None and d.const() is not None:
            el = [self.shift(a, K(i), st).loc for i in range(d.const())]
      else:
        el = self.elements(args[0], st)
      f = self.load(args[-1], st)
      if el is None or not isinstance(f, Fn):
        raise Unsupported(name)
      cur = [st]
      for l in el:
        cur = [s2 for s in cur for _, s2 in self.apply_lambda(f, [Ref(l)], s)]
      return [(Top('void'), s) for s in cur]
    if name == 'std::swap' and all(isinstance(a, (Ref, Obj)) for a in args[:2]):
      a, b = [self.target(x, st) if isinstance(x, Ref) else x.loc for x in args[:2]]
      if self.kind(a, st) or self.kind(b, st):
        self.swap_locs(a, b, st)
        return [(Top('void'), st)]
    if name in ('std::begin', 'std::end', 'std::size', 'std::data') and args and isinstance(args[0], (Ref, Obj)):
      loc = self.target(args[0], st) if isinstance(args[0], Ref) else args[0].loc
      k = self.kind(loc, st)
      if k in ('vec', 'span'):
        return (self.vec if k == 'vec' else self.span)(sh, n, loc, [], st)
    if name == 'absl::MakeSpan' or name == 'absl::MakeConstSpan':
      m = dict(n)
      m['cls'] = 'absl::Span'
      return self.container_ctor(m, args, st)
    return None

  # --- vector -------------------------------------------------------------------------
  def vec(self, sh, n, loc, args, st):
    L = self.size_of(loc, st)
    void = [(Top('void'), st)]
    if sh in ('size', 'capacity', 'max_size'):
      return [(K(L), st)]
    if sh == 'empty':
      return [(L == 0, st)]
    if sh in ('reserve', 'shrink_to_fit'):
      return void
    if sh in ('push_back', 'emplace_back'):
      el = loc + (idx(L),)
      if not args:
        v = K(0)
      elif len(args) == 1:
        v = self.take(args[0], n, st)
      else:
        raise Unsupported('emplace_back with several arguments')
      self.init_at(el, v, st)
      st.heap[loc + ('len',)] = K(L + 1)
      return [(Ref(el), st)]
    if sh in ('operator[]', 'at'):
      i = self.load(args[0], st)
      if not isinstance(i, Aff):
        raise Unsupported('index')
      lo, hi = absint.rng(i, st)
      if lo < 0 or hi >= L:
        self.event(st, 'out-of-bounds', n['l'])
      return [(Ref(loc + (idx(i),)), st)]
    if sh in ('back', 'front'):
      if L == 0:
        self.event(st, 'out-of-bounds', n['l'])
        return []
      return [(Ref(loc + (idx(L - 1 if sh == 'back' else 0),)), st)]
    if sh == 'pop_back':
      self.drop(loc, L - 1, st)
      st.heap[loc + ('len',)] = K(L - 1)
      return void
    if sh == 'clear':
      for i in range(L):
        self.drop(loc, i, st)
      st.heap[loc + ('len',)] = K(0)
      return void
    if sh in ('resize',):
      k = self.load(args[0], st)
      if not isinstance(k, Aff) or k.const() is None:
        raise Unsupported('resize')
      for i in range(k.const(), L):
        self.drop(loc, i, st)
      for i in range(L, k.const()):
        self.init_at(loc + (idx(i),), self.load(args[1], st) if len(args) > 1 else K(0), st)
      st.heap[loc + ('len',)] = k
      return void
    if sh == 'data':
      return [(Ptr(loc + (idx(0),)), st)]
    if sh in ('begin', 'cbegin', 'end', 'cend') and n.get('cls') in ('std::initializer_list', 'std::array'):
      return [(Ptr(loc + (idx(0 if 'begin' in sh else L),)), st)]
    if sh in ('begin', 'cbegin'):
      return [(Const(('it', loc, 0)), st)]
    if sh in ('end', 'cend'):
      return [(Const(('it', loc, L)), st)]
    if sh == 'erase' and len(args) in (1, 2):
      v = [self.load(a, st) for a in args]
      if all(isinstance(x, Const) and isinstance(x.v, tuple) and x.v[0] == 'it' and x.v[1] == loc for x in v):
        a = v[0].v[2]
        b = v[1].v[2] if len(v) > 1 else a + 1
        if not 0 <= a <= b <= L:
          self.event(st, 'out-of-bounds', n['l'], 'erase')
          return [(v[0], st)]
        for i in range(a, a + L - b):
          self.drop(loc, i, st)
          self.copy_obj(loc + (idx(i + b - a),), loc + (idx(i),), st)
        for i in range(a + L - b, L):
          self.drop(loc, i, st)
        st.heap[loc + ('len',)] = K(L - (b - a))
        return [(v[0], st)]
    if sh == 'insert' and len(args) == 3:
      p = self.load(args[0], st)
      a, b = self.load(args[1], st), self.load(args[2], st)
      if isinstance(p, Const) and p.v[0] == 'it' and p.v[1] == loc and p.v[2] == L and isinstance(a, Const) and isinstance(b, Const) and a.v[0] == b.v[0] == 'it' and a.v[1] == b.v[1]:
        for j, i in enumerate(range(a.v[2], b.v[2])):
          self.init_at(loc + (idx(L + j),), self.load(Ref(a.v[1] + (idx(i),)), st), st)
        st.heap[loc + ('len',)] = K(L + max(0, b.v[2] - a.v[2]))
        return [(Const(('it', loc, L)), st)]
    return None

  def drop(self, loc, i, st):
    p = loc + (idx(i),)
    for q in [q for q in st.heap if q[:len(p)] == p]:
      del st.heap[q]

  def take(self, v, n, st):
    """The value of an argument that is copied or moved into a container."""
    if isinstance(v, Ref):
      x = self.load(v, st)
      a = n['a'][-1] if n.get('a') else None
      src = self.target(v, st)
      if a is not None and T.is_move(a) and isinstance(x, Obj):
        tmp = st.fresh('moved')
        self.copy_obj(src, tmp, st)
        self.moved_from(src, st)
        return Obj(tmp)
      return x
    if isinstance(v, Obj):
      self.consume(v, st)
    return v

  # --- maps and sets --------------------------------------------------------------------
  def map(self, sh, n, loc, args, st):
    is_set = self.kind(loc, st) == 'set'
    void = [(Top('void'), st)]
    live = self.entries(loc, st)
    if sh == 'size':
      return [(K(len(live)), st)]
    if sh == 'empty':
      return [(not live, st)]
    if sh in ('reserve', 'rehash'):
      return void
    if sh in ('begin', 'cbegin'):
      return [(Const(('mit', loc, live[0] if live else None)), st)]
    if sh in ('end', 'cend'):
      return [(Const(('mit', loc, None)), st)]
    if sh == 'clear':
      for i in live:
        st.heap[loc + (('ent', i), '$gone')] = True
      return void
    if sh in ('find', 'contains', 'count', 'at', 'operator[]', 'emplace', 'try_emplace', 'insert', 'insert_or_assign', 'erase'):
      key = args[0]
      if sh in ('insert', 'emplace') and len(args) == 1 and not is_set:
        l = key.loc if isinstance(key, (Ref, Obj)) else None
        if l is None:
          return None
        key, args = Ref(l + ('first',)), [Ref(l + ('first',)), Ref(l + ('second',))]
      kv = self.load(key, st)
      if sh == 'erase' and isinstance(kv, Const) and isinstance(kv.v, tuple) and kv.v and kv.v[0] == 'mit':
        st.heap[loc + (('ent', kv.v[2]), '$gone')] = True
        return void
      out = []
      cur = [st]
      for i in live:
        nxt = []
        for s in cur:
          for b, s2 in self.same(kv, Ref(loc + (('ent', i), 'first')), s):
            if not b:
              nxt.append(s2)
            else:
              out += self.hit(sh, n, loc, i, args, s2, is_set)
        cur = nxt
      for s in cur:
        out += self.miss(sh, n, loc, kv, args, s, is_set)
      return out
    return None

  def same(self, kv, ref, st):
    return self.key_eq(kv, self.load(ref, st), st)

  def key_eq(self, a, b, st):
    if isinstance(a, Obj) and isinstance(b, Obj):
      xs = {q[len(a.loc):]: v for q, v in st.heap.items() if q[:len(a.loc)] == a.loc and not str(q[-1]).startswith('$')}
      ys = {q[len(b.loc):]: v for q, v in st.heap.items() if q[:len(b.loc)] == b.loc and not str(q[-1]).startswith('$')}
      if set(xs) == set(ys):
        cur, out = [st], []
        for q in xs:
          nxt = []
          for s in cur:
            for b2, s2 in self.compare('==', xs[q], ys[q], s):
              (nxt if b2 else out).append(s2)
          cur = nxt
        return [(True, s) for s in cur] + [(False, s) for s in out]
    return self.compare('==', a, b, st)

  def hit(self, sh, n, loc, i, args, s, is_set):
    e = loc + (('ent', i),)
    if sh == 'find':
      return [(Const(('mit', loc, i)), s)]
    if sh == 'contains':
      return [(True, s)]
    if sh == 'count':
      return [(K(1), s)]
    if sh in ('at', 'operator[]'):
      return [(Ref(e + ('second',)), s)]
    if sh == 'erase':
      s.heap[e + ('$gone',)] = True
      return [(K(1), s)]
    if sh == 'insert_or_assign':
      self.store(e + ('second',), self.load(args[1], s), s)
    r = s.fresh('pair')
    s.heap[r + ('first',)] = Const(('mit', loc, i))
    s.heap[r + ('second',)] = False
    return [(Obj(r), s)]

  def miss(self, sh, n, loc, kv, args, s, is_set):
    if sh == 'find':
      return [(Const(('mit', loc, None)), s)]
    if sh == 'contains':
      return [(False, s)]
    if sh in ('count', 'erase'):
      return [(K(0), s)]
    if sh == 'at':
      self.event(s, 'out-of-bounds', n['l'])
      return []
    i = s.heap[loc + ('n',)].const()
    e = loc + (('ent', i),)
    s.heap[loc + ('n',)] = K(i + 1)
    self.init_at(e + ('first',), kv, s)
    if sh == 'operator[]':
      s.heap[e + ('second',)] = K(0)
      return [(Ref(e + ('second',)), s)]
    if not is_set:
      self.init_at(e + ('second',), self.load(args[1], s) if len(args) > 1 else K(0), s)
    r = s.fresh('pair')
    s.heap[r + ('first',)] = Const(('mit', loc, i))
    s.heap[r + ('second',)] = True
    return [(Obj(r), s)]

  # --- iterators ---------------------------------------------------------------------------
  def iterators(self, name, sh, n, obj, args, st):
    if not sh.startswith('operator'):
      return None
    vals = ([obj] if obj is not None else []) + list(args)
    if not vals or isinstance(vals[0], Fn):
      return None
    v0 = vals[0]
    a = self.load(v0, st) if isinstance(v0, Ref) else v0
    if not (isinstance(a, Const) and isinstance(a.v, tuple) and a.v and a.v[0] in ('it', 'mit')):
      return None
    op = sh[8:]
    b = self.load(vals[1], st) if len(vals) > 1 else None
    if op in ('==', '!='):
      return [((a == b) == (op == '=='), st)]
    if op in ('<', '<=', '>', '>=') and a.v[0] == 'it':
      return self.compare(op, K(a.v[2]), K(b.v[2]), st)
    if a.v[0] == 'it':
      if op == '*':
        return [(Ref(a.v[1] + (idx(a.v[2]),)), st)]
      if op == '->':
        return [(Ptr(a.v[1] + (idx(a.v[2]),)), st)]
      if op in ('+', '-') and isinstance(b, Aff) and b.const() is not None:
        return [(Const(('it', a.v[1], a.v[2] + b.const() * (1 if op == '+' else -1))), st)]
      if op == '-' and isinstance(b, Const):
        return [(K(a.v[2] - b.v[2]), st)]
      if op in ('++', '--') and isinstance(v0, Ref):
        new = Const(('it', a.v[1], a.v[2] + (1 if op == '++' else -1)))
        self.store(self.target(v0, st), new, st)
        return [(a if len(vals) > 1 else v0, st)]
    else:
      if a.v[2] is None and op in ('*', '->', '++'):
        self.event(st, 'null-deref', n['l'])
        return []
      if op in ('*', '->'):
        l = a.v[1] + (('ent', a.v[2]),)
        if self.kind(a.v[1], st) == 'set':
          l += ('first',)
        return [(Ref(l) if op == '*' else Ptr(l), st)]
      if op == '++' and isinstance(v0, Ref):
        live = [i for i in self.entries(a.v[1], st) if i > a.v[2]]
        self.store(self.target(v0, st), Const(('mit', a.v[1], live[0] if live else None)), st)
        return [(a if len(vals) > 1 else v0, st)]
    raise Unsupported('iterator operation ' + op)

  # --- span ------------------------------------------------------------------------------------
  def span(self, sh, n, loc, args, st):
    p = st.heap[loc + ('ptr',)]
    L = st.heap[loc + ('len',)]
    if sh in ('size', 'length'):
      return [(L, st)]
    if sh == 'empty':
      return self.compare('==', L, K(0), st)
    if sh in ('data', 'begin', 'cbegin'):
      return [(p, st)]
    if sh in ('end', 'cend'):
      q = self.shift(p, L, st)
      return [(q if q is not None else p, st)]
    if sh in ('operator[]', 'at'):
      q = self.shift(p, self.load(args[0], st), st)
      if q is None:
        raise Unsupported('span index')
      return [(Ref(q.loc), st)]
    if sh in ('front', 'back'):
      q = p if sh == 'front' else self.shift(p, L.add(K(-1)), st)
      return [(Ref(q.loc), st)]
    if sh in ('subspan', 'first', 'last') and isinstance(L, Aff):
      a = self.load(args[0], st)
      off = a if sh == 'subspan' else K(0) if sh == 'first' else L.add(a, -1)
      ln = a if sh != 'subspan' else self.load(args[1], st) if len(args) > 1 and isinstance(self.load(args[1], st), Aff) else L.add(off, -1)
      if ln.const() is None and L.const() is not None and sh == 'subspan':
        raise Unsupported('subspan')
      if sh == 'subspan' and L.const() is not None and off.const() is not None:
        if not 0 <= off.const() <= L.const():
          self.event(st, 'out-of-bounds', n['l'], 'subspan')
          off, ln = L, K(0)
        if not 0 <= ln.const() <= L.const() - off.const():
          ln = L.add(off, -1)
      r = st.fresh('span')
      self.new_span(st, r, self.shift(p, off, st), ln)
      return [(Obj(r), st)]
    return None

  # --- unique_ptr ----------------------------------------------------------------------------------
  def up(self, sh, n, loc, args, st):
    p = st.heap[loc + ('p',)]
    if sh == 'get':
      return [(p, st)]
    if sh == 'operator bool':
      return self.truth(p, st)
    if sh in ('operator->',):
      return [(p, st)]
    if sh == 'operator*':
      if isinstance(p, Ptr) and p.loc is None:
        self.deref_null(n, st)
        return []
      return [(Ref(p.loc), st)]
    if sh == 'get_deleter':
      return [(Ref(loc + ('del',)), st)]
    if sh == 'release':
      st.heap[loc + ('p',)] = Ptr(None)
      return [(p, st)]
    if sh == 'reset':
      new = self.load(args[0], st) if args else Ptr(None)
      st.heap[loc + ('p',)] = new if isinstance(new, Ptr) else Ptr(None)
      return self.free_up(n, loc, p, st)
    if sh == 'swap':
      o = self.target(args[0], st)
      self.swap_locs(loc, o, st)
      return [(Top('void'), st)]
    return None

  def swap_locs(self, a, b, st):
    xa = {q[len(a):]: v for q, v in st.heap.items() if q[:len(a)] == a}
    xb = {q[len(b):]: v for q, v in st.heap.items() if q[:len(b)] == b}
    for l, x in ((a, xa), (b, xb)):
      for q in x:
        del st.heap[l + q]
    for l, x in ((a, xb), (b, xa)):
      for q, v in x.items():
        st.heap[l + q] = v

  def unknown(self, n, obj, args, st):
    for a in [obj] + list(args):
      v = self.load(a, st) if isinstance(a, Ref) else a
      if isinstance(v, Fn) or isinstance(v, Const) and isinstance(v.v, tuple) and v.v and v.v[0] in ('it', 'mit'):
        raise Unsupported('call of %s' % T.callee_name(n))
      if isinstance(v, (Ref, Obj)) and v.loc and self.kind(v.loc, st) and not (isinstance(v, Obj) and v.node is not None):
        raise Unsupported('call of %s' % T.callee_name(n))
    return super().unknown(n, obj, args, st)

  def free_up(self, n, loc, p, st):
    """The unique_ptr at `loc` frees p."""
    if not isinstance(p, Ptr) or p.loc is None:
      return [(Top('void'), st)]
    d = st.heap.get(loc + ('del', '$'))
    fns = [f for f in self.F.by_name.get(d.v + '::operator()', []) if f.get('body')] if isinstance(d, Const) else []
    if len(fns) == 1:
      return self.call_fn(fns[0], loc + ('del',), [p], st)
    if isinstance(st.heap.get(loc + ('del',)), Fn):
      return self.apply_lambda(st.heap[loc + ('del',)], [p], st)
    self.event(st, 'delete', n.get('l', 0), p.loc)
    if p.loc in st.dead:
      self.event(st, 'double-delete', n.get('l', 0), p.loc)
    out = []
    for s in self.pointee_dtor(n, loc, p, st):
      s.dead.add(p.loc)
      out.append((Top('void'), s))
    return out

  def pointee_dtor(self, n, loc, p, st):
    return [st]

  def run_dtor(self, v, loc, st):
    if v.get('dtor_cls') == 'std::unique_ptr' and self.kind(loc, st) == 'up':
      p = st.heap[loc + ('p',)]
      st.heap[loc + ('p',)] = Ptr(None)
      return [s for _, s in self.free_up(v, loc, p, st)]
    out = []
    for s in super().run_dtor(v, loc, st):
      out += self.member_dtors(v.get('dtor_cls'), loc, s)
    return out

  def member_dtors(self, cls, loc, st):
    """unique_ptr members, in reverse order of declaration."""
    rec = self.F.rec(cls) if cls else None
    states = [st]
    for f in reversed(rec['fields'] if rec else []):
      l = loc + (f['n'],)
      nxt = []
      for s in states:
        if self.kind(l, s) == 'up':
          nxt += self.run_dtor({'dtor_cls': 'std::unique_ptr', 'l': v_line(f)}, l, s)
        else:
          nxt.append(s)
      states = nxt
    return states


def v_line(f):
  return f.get('l', 0)
