import itertools
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import absint
from absint import Aff, Ptr, Ref, Obj, Const, Top, Fn, Unsupported
import containers
from containers import K, idx
import rawmem
import facts
import report
import tree as T

RULE = ('Abstract interpretation of the frame layout builder, its initializers and the owning allocation for symbolic sizes, offsets and addresses (alloc size 16q+r for every r, every '
        'alignment, every shape of the initializer tables up to two types): a new slot or sub-frame is aligned, starts at or after the end of what exists and ends within the new size; its '
        'constructor and destructor are registered once at its offset; initialisation zeroes the block first and then constructs, destruction destroys, each registered object of each block '
        'exactly once at base + offset + i * block; an owned allocation is initialised, destroyed and freed exactly once.')
BIG = 2**40
FL = 'arolla::FrameLayout'


class I(rawmem.Raw):

  @property
  def SIZES(self):
    return {t: v[0] for t, v in TYPES.items()}


def fields(F, cls):
  r = F.rec(cls)
  return r['fields'] if r else []


class Names:
  """Members by what they are, not by name."""

  def __init__(self, c, F):
    b = fields(F, FL + '::Builder')
    i = fields(F, FL + '::FieldInitializers')
    y = fields(F, FL + '::FieldFactory')
    lay = fields(F, FL)

    def one(fs, pred, what):
      r = [f['n'] for f in fs if pred(f)]
      c.need(len(r) == 1, 'frame layout: %s not recognised (%s)' % (what, r))
      return r[0]

    def dflt(f):
      return T.pp(f['i']) if f.get('i') else ''
    isz = lambda f: (f.get('ct') or f['t']).endswith(('unsigned long', 'size_t'))
    self.size = one(b, lambda f: isz(f) and '0' in dflt(f), 'builder size')
    self.align = one(b, lambda f: isz(f) and '1' in dflt(f), 'builder alignment')
    self.init = one(b, lambda f: 'FieldInitializers' in f['t'], 'builder initializers')
    self.lsize = one(lay, lambda f: isz(f) and '0' in dflt(f), 'layout size')
    self.lalign = one(lay, lambda f: isz(f) and '1' in dflt(f), 'layout alignment')
    self.linit = one(lay, lambda f: 'FieldInitializers' in f['t'], 'layout initializers')
    self.facs = one(i, lambda f: 'vector<' in f['t'] and 'FieldFactory' in f['t'], 'factories')
    self.map = one(i, lambda f: 'map<' in f['t'], 'map of factories')
    self.offs = one(y, lambda f: 'vector<' in f['t'], 'offsets')
    self.type = one(y, lambda f: 'type_index' in f['t'], 'type')


class Case:

  def __init__(self, c, F):
    self.c = c
    self.F = F
    self.N = Names(c, F)
    self.broken = False
    self.w = {T.short(f['n']): f for f in F.functions if f['n'].startswith('witness::')}
    self.fac = {}
    for t in ('Both', 'CtorOnly', 'DtorOnly', 'Wide'):
      self.fac[t] = self.factory(t)
      if self.fac[t] is None:
        c.bad('arolla/memory/frame.h', 'AddSlot of a type that needs construction or destruction (%s) never creates a factory for it' % t, key='nofactory|' + t)
        self.broken = True

  def factory(self, t):
    """(state, location) of FieldFactory::Create<t>(), by interpreting it."""
    for f in self.F.insts:
      if f['n'] == FL + '::FieldFactory::Create' and f.get('body'):
        ids = {x.get('of') for x in T.walk_fn(f) if x['k'] == 'Typeid'}
        if ids == {'struct witness::' + t} or ids == {'witness::' + t}:
          it = I(self.F)
          outs = it.call_fn(f, None, [], absint.State())
          self.c.need(len(outs) == 1 and isinstance(outs[0][0], Obj), 'FieldFactory::Create<%s>' % t)
          return outs[0][1], outs[0][0].loc, f, ids.pop()
    return None

  def put_factory(self, it, st, loc, t, offs):
    s0, l0, _, _ = self.fac[t]
    for k, v in s0.heap.items():
      if k[:len(l0)] == l0:
        st.heap[loc + k[len(l0):]] = v
    for k in [k for k in st.heap if k[:len(loc) + 1] == loc + (self.N.offs,)]:
      del st.heap[k]
    it.new_vec(st, loc + (self.N.offs,), offs)

  def put_init(self, it, st, loc, table):
    """table: [(type, [offsets])]"""
    N = self.N
    it.new_vec(st, loc + (N.facs,), [])
    st.heap[loc + (N.facs, 'len')] = K(len(table))
    for i, (t, offs) in enumerate(table):
      self.put_factory(it, st, loc + (N.facs, idx(i)), t, offs)
    it.new_map(st, loc + (N.map,), [(Const(('type', self.fac[t][3])), K(i)) for i, (t, _) in enumerate(table)])

  def get_init(self, it, st, loc):
    """{type: [offsets]} as the map and the factories say, plus complaints."""
    N = self.N
    out, bad = {}, []
    n = it.size_of(loc + (N.facs,), st)
    for i in it.entries(loc + (N.map,), st):
      key = it.load(Ref(loc + (N.map, ('ent', i), 'first')), st)
      j = it.load(Ref(loc + (N.map, ('ent', i), 'second')), st)
      j = j.const() if isinstance(j, Aff) else None
      if j is None or not 0 <= j < n:
        bad.append('the map of a type does not lead to a factory')
        continue
      f = loc + (N.facs, idx(j))
      ty = it.load(Ref(f + (N.type,)), st)
      if ty != key:
        bad.append('the map leads a type to the factory of another one')
      t = [x for x in self.fac if Const(('type', self.fac[x][3])) == ty]
      if not t:
        bad.append('a factory of an unknown type')
        continue
      if t[0] in out:
        bad.append('two factories for one type')
      out[t[0]] = [it.load(Ref(l), st) for l in it.elements(Ref(f + (N.offs,)), st)]
      for q, v in self.fac[t[0]][0].heap.items():
        l0 = self.fac[t[0]][1]
        if q[:len(l0)] == l0 and isinstance(v, Fn):
          w = st.heap.get(f + q[len(l0):])
          if not isinstance(w, Fn) or w.node is not v.node:
            bad.append('a factory lost its functions')
    if len(it.entries(loc + (N.map,), st)) != n:
      bad.append('a factory without a map entry')
    return out, bad

  def builder(self, it, st, size, align, table):
    b = ('B',)
    N = self.N
    st.heap[b + (N.size,)] = size
    st.heap[b + (N.align,)] = K(align)
    self.put_init(it, st, b + (N.init,), table)
    for f in fields(self.F, FL + '::Builder'):
      if 'set<' in (f.get('ct') or f['t']) or 'RegisteredFields' in f['t']:
        it.new_map(st, b + (f['n'],), [], True)
    return b

  def layout(self, it, st, loc, size, align, table):
    N = self.N
    st.heap[loc + (N.lsize,)] = size
    st.heap[loc + (N.lalign,)] = K(align)
    self.put_init(it, st, loc + (N.linit,), table)
    for f in fields(self.F, FL):
      if 'set<' in (f.get('ct') or f['t']) or 'RegisteredFields' in f['t']:
        it.new_map(st, loc + (f['n'],), [], True)
    return loc


def ge(a, b, st):
  return isinstance(a, Aff) and isinstance(b, Aff) and absint.rng(a.add(b, -1), st)[0] >= 0


def aligned(a, k, st):
  return isinstance(a, Aff) and all(v % k == 0 for v in a.c.values()) and a.k % k == 0


TYPES = {  # size, alignment, constructed, destroyed
    'char': (1, 1, 0, 0), 'int16_t': (2, 2, 0, 0), 'float': (4, 4, 0, 0), 'double': (8, 8, 0, 0), 'Odd': (3, 1, 0, 0),
    'Both': (8, 8, 1, 1), 'CtorOnly': (2, 2, 1, 0), 'DtorOnly': (4, 4, 0, 1), 'Wide': (16, 16, 1, 1),
}


def tables(t, st, k=0):
  """Shapes of the initializer table: without / with type t, before / after another type."""
  o = [st.sym('o%d_%d' % (k, i), 0, BIG) for i in range(4)]
  other = 'CtorOnly' if t != 'CtorOnly' else 'Both'
  return [[], [(t, [o[0]])], [(other, [o[1]])], [(t, [o[0], o[2]]), (other, [o[1]])], [(other, [o[1], o[3]]), (t, [o[0]])]]


def add_slot(S):
  c, F = S.c, S.F
  for t, (size, al, ctor, dtor) in TYPES.items():
    fn = S.w['add_' + t]
    inst = [x for x in T.walk_fn(fn) if x['k'] == 'MCall' and T.callee_short(x) == 'AddSlot']
    c.need(len(inst) == 1, 'AddSlot call of ' + t)
    f = I(F).find_fn(inst[0])
    c.need(f is not None, 'AddSlot<%s>' % t)
    w = '%s:%d' % (f['file'], f['l'])
    shapes = 5 if (ctor or dtor) else 1
    for r, a0, sh in itertools.product(range(16), (1, 2, 4, 8, 16), range(shapes)):
      if sh and (r not in (0, 5) or a0 not in (1, 8)):
        continue
      it = I(F)
      st = absint.State()
      q = st.sym('q', 0, BIG)
      old = q.mul(16).add(K(r))
      tab = tables(t, st)[sh] if shapes > 1 else []
      b = S.builder(it, st, old, a0, tab)
      outs = it.call_fn(f, b, [], st)
      c.need(outs, 'AddSlot<%s> has no outcome' % t)
      for v, s in outs:
        bad = []
        off = [x for k, x in s.heap.items() if isinstance(v, Obj) and k[:len(v.loc)] == v.loc and isinstance(x, Aff)]
        new = s.heap.get(b + (S.N.size,))
        na = s.heap.get(b + (S.N.align,))
        if len(off) != 1:
          raise Unsupported('the slot AddSlot returns')
        o = off[0]
        if not aligned(o, al, s):
          bad.append('the slot is not aligned to %d' % al)
        if not ge(o, old, s):
          bad.append('the slot may overlap an earlier one')
        if not ge(old.add(K(al - 1)), o, s):
          bad.append('the slot is not the first aligned place (consecutive slots of one type would not form an array)')
        if not ge(new, o.add(K(size)), s):
          bad.append('the slot may end after the end of the allocation')
        if na != K(max(a0, al)):
          bad.append('the alignment becomes %r, not the maximum of %d and %d' % (na, a0, al))
        got, more = S.get_init(it, s, b + (S.N.init,))
        want = {x: list(y) for x, y in tab}
        if ctor or dtor:
          want.setdefault(t, []).append(o)
        bad += more + differ(want, got)
        bad += [str(e) for e in s.log if e[0] in ('null-deref', 'out-of-bounds', 'use-after-free', 'truncation')]
        for x in sorted(set(bad)):
          c.bad(w, 'AddSlot of a %s (size %d, alignment %d): %s (existing size 16q+%d)' % (t, size, al, x, r), key='AddSlot|%s|%s' % (t, x))
        if not bad:
          c.ok('AddSlot<%s>' % t if (r, a0, sh) == (0, 1, 0) else None)
        c.count('abstract_states')


def differ(want, got):
  bad = []
  for t in set(want) | set(got):
    x = sorted(repr(a) for a in want.get(t, []))
    y = sorted(repr(a) for a in got.get(t, []))
    if x != y:
      if len(y) < len(x):
        bad.append('an object is not registered for construction and destruction')
      elif len(y) > len(x):
        bad.append('an object is registered twice')
      else:
        bad.append('an object is registered at offset %s instead of %s' % ([a for a in y if a not in x], [a for a in x if a not in y]))
  return bad


def add_sub_frame(S):
  c, F = S.c, S.F
  f, = F.fn(FL + '::Builder::AddSubFrame')
  w = '%s:%d' % (f['file'], f['l'])
  for r, a0, a1 in itertools.product(range(16), (1, 4, 8, 16), (1, 2, 4, 8, 16)):
    for sh, sh2 in itertools.product(range(5), range(5)):
      if (sh or sh2) and (r not in (0, 7) or a0 != 4 or a1 not in (1, 8)):
        continue
      it = I(F)
      st = absint.State()
      old = st.sym('q', 0, BIG).mul(16).add(K(r))
      m = st.sym('m', 0, BIG).mul(a1)
      tab = tables('Both', st)[sh]
      tab2 = tables('Both', st, 1)[sh2]
      b = S.builder(it, st, old, a0, tab)
      l = S.layout(it, st, ('L',), m, a1, tab2)
      for v, s in it.call_fn(f, b, [Ref(l)], st):
        bad = []
        off = [x for k, x in s.heap.items() if isinstance(v, Obj) and k[:len(v.loc)] == v.loc and isinstance(x, Aff)]
        if len(off) != 1:
          raise Unsupported('the slot AddSubFrame returns')
        o = off[0]
        new = s.heap.get(b + (S.N.size,))
        if not aligned(o, a1, s):
          bad.append('the sub-frame is not aligned')
        if not ge(o, old, s):
          bad.append('the sub-frame may overlap an earlier slot')
        if not ge(new, o.add(m), s):
          bad.append('the sub-frame may end after the end of the allocation')
        if s.heap.get(b + (S.N.align,)) != K(max(a0, a1)):
          bad.append('the alignment is not the maximum of both')
        want = {x: list(y) for x, y in tab}
        for x, y in tab2:
          want.setdefault(x, []).extend(z.add(o) for z in y)
        got, more = S.get_init(it, s, b + (S.N.init,))
        bad += more + differ(want, got)
        got2, more = S.get_init(it, s, l + (S.N.linit,))
        if differ({x: list(y) for x, y in tab2}, got2):
          bad.append('the sub-frame layout itself is changed')
        bad += [str(e) for e in s.log if e[0] in ('null-deref', 'out-of-bounds', 'use-after-free', 'truncation')]
        for x in sorted(set(bad)):
          c.bad(w, 'AddSubFrame: ' + x, key='AddSubFrame|' + x)
        if not bad:
          c.ok('AddSubFrame' if (r, a0, a1, sh, sh2) == (0, 1, 1, 0, 0) else None)
        c.count('abstract_states')


def build(S):
  c, F = S.c, S.F
  f = S.w['build']
  w = 'arolla/memory/frame.h'
  for r, a0, sh in itertools.product(range(16), (1, 2, 4, 8, 16), range(5)):
    it = I(F)
    st = absint.State()
    old = st.sym('q', 0, BIG).mul(16).add(K(r))
    tab = tables('Both', st)[sh]
    b = S.builder(it, st, old, a0, tab)
    for v, s in it.call_fn(f, None, [Ref(b)], st):
      if not isinstance(v, (Obj, Ref)):
        raise Unsupported('the layout Build returns')
      bad = []
      size, al = s.heap.get(v.loc + (S.N.lsize,)), s.heap.get(v.loc + (S.N.lalign,))
      if al != K(a0):
        bad.append('the layout has another alignment than its builder')
      if not ge(size, old, s):
        bad.append('the layout is smaller than its slots')
      if not ge(old.add(K(a0 - 1)), size, s):
        bad.append('the layout is larger than its slots and their alignment need')
      if not aligned(size, a0, s):
        bad.append('the size of a layout is no multiple of its alignment (blocks of an array would be misaligned)')
      got, more = S.get_init(it, s, v.loc + (S.N.linit,))
      bad += more + differ({x: list(y) for x, y in tab}, got)
      for x in sorted(set(bad)):
        c.bad(w, 'Build: ' + x, key='Build|' + x)
      if not bad:
        c.ok('Build' if (r, a0, sh) == (0, 1, 0) else None)
      c.count('abstract_states')


def run_fields(S):
  c, F = S.c, S.F
  for op, n in [('init', None), ('destroy', None)] + [(o, k) for o in ('init_n', 'destroy_n') for k in range(4)]:
    f = S.w[op]
    for tab_i in range(4):
      it = I(F)
      st = absint.State()
      base = st.sym('base', 1, BIG)
      size = st.sym('m', 0, BIG).mul(16)
      o = [st.sym('o%d' % i, 0, BIG) for i in range(6)]
      tab = [[], [('Both', [o[0], o[1]])], [('CtorOnly', [o[0]]), ('DtorOnly', [o[1], o[2]])],
             [('DtorOnly', [o[5]]), ('Both', [o[0], o[1]]), ('CtorOnly', [o[2]]), ('Wide', [o[3], o[4]])]][tab_i]
      l = S.layout(it, st, ('L',), size, 16, tab)
      args = [Ref(l), it.raw(base)] + ([K(n)] if n is not None else [])
      try:
        outs = it.call_fn(f, None, args, st)
      except Unsupported as e:
        c.undecided(op, str(e))
        continue
      c.need(outs, op)
      for v, s in outs:
        bad = []
        if n != 0:
          zeros = [i for i, e in enumerate(s.log) if e[0] == 'zero']
          if op.startswith('init'):
            total = size.mul(n if n is not None else 1)
            if len(zeros) != 1 or s.log[zeros[0]][1:] != (base, total):
              bad.append('the block is not zeroed exactly once over its whole size')
            elif any(e[0] == 'ctor' for e in s.log[:zeros[0]]):
              bad.append('the block is zeroed after an object was constructed in it')
          elif zeros:
            bad.append('destruction zeroes the block')
        want = []
        for t, offs in tab:
          _, _, ctor, dtor = TYPES[t]
          if ctor if op.startswith('init') else dtor:
            for x in offs:
              for i in range(1 if n is None else n):
                want.append(('ctor' if op.startswith('init') else 'dtor1', t, repr(base.add(x).add(size.mul(i)))))
        got = [(e[0], e[1], repr(e[2])) for e in s.log if e[0] in ('ctor', 'dtor1')]
        for e in want:
          if e not in got:
            bad.append('a %s is not %s' % (e[1], 'constructed' if e[0] == 'ctor' else 'destroyed'))
          elif got.count(e) > 1:
            bad.append('a %s is %s twice' % (e[1], 'constructed' if e[0] == 'ctor' else 'destroyed'))
        for e in got:
          if e not in want:
            bad.append('a %s is %s where none was registered' % (e[1], 'constructed' if e[0] == 'ctor' else 'destroyed'))
        name = {'init': 'InitializeAlignedAlloc', 'destroy': 'DestroyAlloc', 'init_n': 'InitializeAlignedAllocN', 'destroy_n': 'DestroyAllocN'}[op]
        g = F.fn(FL + '::' + name)
        w = '%s:%d' % (g[0]['file'], g[0]['l']) if g else 'arolla/memory/frame.h'
        for x in sorted(set(bad)):
          c.bad(w, '%s%s: %s' % (name, '' if n is None else ' of %d blocks' % n, x), key='%s|%s' % (name, x))
        if not bad:
          c.ok(name)
        c.count('abstract_states')


def frames(S):
  c, F = S.c, S.F
  for op in ('mutable_field', 'field', 'raw', 'craw'):
    f = S.w[op]
    it = I(F)
    st = absint.State()
    base, off = st.sym('base', 1, BIG), st.sym('off', 0, BIG)
    cls = 'arolla::ConstFramePtr' if op in ('field', 'craw') else 'arolla::FramePtr'
    fs = fields(F, cls)
    p = [x['n'] for x in fs if x['t'].replace('const ', '').strip() == 'void *']
    c.need(len(p) == 1, cls)
    st.heap[('f', p[0])] = it.raw(base)
    sf = [x for r in F.records.get(FL + '::Slot', []) for x in r['fields'] if (x.get('ct') or x['t']).endswith(('size_t', 'unsigned long'))]
    name = sf[0]['n'] if sf else 'byte_offset_'
    st.heap[('s', name)] = off
    args = [Obj(('f',)), Obj(('s',)) if op in ('mutable_field', 'field') else off]
    for v, s in it.call_fn(f, None, args, st):
      if not it.is_raw(v):
        raise Unsupported('the pointer of ' + op)
      if v.loc[1] == base.add(off):
        c.ok(op)
      else:
        c.bad('arolla/memory/frame.h', '%s: a slot at offset off leads to %r, not to base + off' % (op, v.loc[1]), key=op)
      c.count('abstract_states')


def owned(S):
  c, F = S.c, S.F
  for op, nl in (('life', 1), ('moved', 1), ('assigned', 2), ('assigned_to_empty', 1), ('assigned_empty', 1)):
    f = S.w[op]
    it = I(F)
    st = absint.State()
    ls = []
    want = []
    for i in range(nl):
      size = st.sym('m%d' % i, 0, BIG).mul(16)
      o = st.sym('o%d' % i, 0, BIG)
      ls.append(Ptr(S.layout(it, st, ('L%d' % i,), size, (16, 8)[i], [(('Both', 'Wide')[i], [o])])))
      want.append((size, K((16, 8)[i]), ('Both', 'Wide')[i], o))
    outs = it.call_fn(f, None, ls, st)
    c.need(outs, op)
    for v, s in outs:
      bad = []
      al = [e for e in s.log if e[0] == 'alloc']
      if len(al) != nl:
        bad.append('%d blocks are allocated for %d layouts' % (len(al), nl))
      for e, (size, a, t, o) in zip(al, want):
        base = e[1]
        if e[2] != size or e[3] != a:
          bad.append('the block has another size or alignment than the layout')
        ev = [x for x in s.log if x[0] in ('ctor', 'dtor1', 'free', 'zero') and (x[2] if x[0] in ('ctor', 'dtor1') else x[1]).c.get(list(base.c)[0])]
        kinds = [x[0] for x in ev]
        if kinds != ['zero', 'ctor', 'dtor1', 'free']:
          d = {k: kinds.count(k) for k in ('ctor', 'dtor1', 'free')}
          if d == {'ctor': 1, 'dtor1': 1, 'free': 1}:
            bad.append('an owned frame goes through %s' % kinds)
          else:
            bad.append('an owned frame is constructed %d times, destroyed %d times and freed %d times' % (d['ctor'], d['dtor1'], d['free']))
          continue
        if ev[1][1:] != (t, base.add(o)) or ev[2][1:] != (t, base.add(o)):
          bad.append('an object of an owned frame is constructed or destroyed as another layout says')
        if ev[3][1] != base or ev[3][2] != a:
          bad.append('the block is freed with another alignment than it was allocated with')
      for x in sorted(set(bad)):
        c.bad('arolla/memory/memory_allocation.h', 'MemoryAllocation (%s): %s' % (op, x), key='alloc|%s|%s' % (op, x))
      if not bad:
        c.ok('MemoryAllocation ' + op)
      c.count('abstract_states')


def run(c):
  F = facts.load(facts.Scope(inst=['arolla/memory/', 'arolla/util/', '@tu/'], extra=[os.path.join(facts.VERIF, 'tu', 'frame.cc')]))
  S = Case(c, F)
  if S.broken:
    return
  for part in (add_slot, add_sub_frame, build, run_fields, frames, owned):
    try:
      part(S)
    except Unsupported as e:
      c.undecided(part.__name__, str(e))
  c.need(c.obl > 300 or c.open, 'nothing analysed')


report.main('M01', RULE, run)
