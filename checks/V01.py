"""V01: typed values: storage, ownership and typed access."""
import itertools
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import absint
from absint import Aff, Ptr, Ref, Obj, Const, Top, Unsupported
from containers import K, idx
import facts
import rawmem
import report
import statuses
from statuses import OK, is_status
import tree as T

RULE = ('Abstract interpretation of every operation of TypedValue, TypedRef and TypedSlot over a symbolic heap (every shape of the two handles, up to two other owners, every alignment '
        'up to 16, symbolic sizes and offsets): a value is constructed once in aligned storage inside its own block, counted by its handles, destroyed and freed once with the last; a typed '
        'access succeeds exactly for the type of the value and then leads to exactly its bytes; a copy goes from exactly the source to exactly the destination.')
BIG = 2**40
TYPE = {'T': 'struct witness::T', 'T2': 'struct witness::T', 'U': 'struct witness::U'}


class I(statuses.Statuses, rawmem.Raw):

  def q(self, name):
    return Ptr(('Q', name))

  def load(self, v, st, t=''):
    if isinstance(v, Ref) and v.loc[:1] == ('Q',) and len(v.loc) == 2:
      return Obj(v.loc)
    return super().load(v, st, t)

  def e_New(self, n, st):
    init = n.get('init') or {}
    t = T.short(init.get('cls') or n.get('t') or '').rstrip(' *')
    if not n.get('place'):
      return super().e_New(n, st)
    place = n['pa'][-1]
    out = []
    for v, s in self.rv(place, st):
      if not self.is_raw(v):
        raise Unsupported('placement new outside the block')
      args = init.get('a') or []
      for vals, s2 in self.evs(args, s):
        src = vals[0].loc if vals and isinstance(vals[0], (Ref, Obj)) else None
        if t == 'Impl':
          for f in self.impl:
            if f['t'].endswith('Refcount'):
              s2.heap[v.loc + (f['n'],)] = K(1)
          self.event(s2, 'new-impl', v.loc[1])
        else:
          self.event(s2, 'ctor', t, v.loc[1], src)
        out.append((v, s2))
    return out

  def model(self, name, n, obj, args, st):
    sh = T.short(name)
    cls = n.get('cls') or ''
    r = self.status_model(name, n, obj, args, st)
    if r is not None:
      return r
    if sh == 'GetQType' or name.endswith('QTypeTraits::type'):
      return [(self.q('T'), st)]
    if cls == 'arolla::QType':
      o = self.obj_loc(obj, n, st)
      if o is None or o[0] != 'Q':
        raise Unsupported('a type that is not one of the value')
      if sh == 'type_layout':
        return [(Ref(o + ('layout',)), st)]
      if sh == 'type_info':
        return [(Const(('type', TYPE[o[1]])), st)]
      if sh == 'type_fields':
        return [(Ref(o + ('fields',)), st)]
      if sh == 'name':
        return [(Top('name'), st)]
      if sh == 'UnsafeCopy':
        a, b = [self.load(x, st) for x in args]
        self.event(st, 'copy', o[1], a.loc if isinstance(a, Ptr) else None, b.loc if isinstance(b, Ptr) else None)
        return [(Top('void'), st)]
    if cls == 'arolla::FrameLayout':
      o = self.obj_loc(obj, n, st)
      if o is not None and o[0] == 'Q':
        if sh == 'AllocSize':
          return [(st.heap[o + ('size',)], st)]
        if sh == 'AllocAlignment':
          return [(st.heap[o + ('align',)], st)]
        if sh in ('InitializeAlignedAlloc', 'DestroyAlloc'):
          p = self.load(args[0], st)
          if not isinstance(p, Ptr):
            raise Unsupported(sh)
          self.event(st, 'init' if sh[0] == 'I' else 'destroy', o[1], p.loc)
          if any(p.loc[:len(d)] == d for d in st.dead):
            self.event(st, 'use-after-free', 0, p.loc)
          return [(Top('void'), st)]
    if cls == 'arolla::Refcount' and obj is not None:
      l = self.obj_loc(obj, n, st)
      v = self.load(Ref(l), st)
      if not isinstance(v, Aff):
        raise Unsupported('reference count')
      d = 1 if sh == 'increment' else -1 if sh in ('decrement', 'skewed_decrement') else None
      if d is None:
        raise Unsupported('reference count ' + sh)
      st.heap[l] = v.add(K(d))
      return [(st.heap[l].const() != 0, st)]
    if cls in ('std::type_info', 'std::type_index') and n.get('op') in ('==', '!='):
      a, b = self.load(obj if obj is not None else args[0], st), self.load(args[-1], st)
      if isinstance(a, Const) and isinstance(b, Const):
        return [((a == b) == (n['op'] == '=='), st)]
    if name == 'std::align':
      al, size, p, space = self.load(args[0], st), self.load(args[1], st), self.load(args[2], st), self.load(args[3], st)
      k = al.const() if isinstance(al, Aff) else None
      if k is None or not self.is_raw(p) or not isinstance(args[2], Ref) or not isinstance(args[3], Ref):
        raise Unsupported('std::align')
      a = p.loc[1]
      if any(x % k for x in a.c.values()):
        raise Unsupported('std::align of an address of unknown remainder')
      pad = K(-a.k % k)
      out = []
      for b, s in self.compare('<', space, size.add(pad), st):
        if b:
          out.append((Ptr(None), s))
        else:
          r = self.raw(a.add(pad))
          self.store(self.target(args[2], s), r, s)
          self.store(self.target(args[3], s), space.add(pad, -1), s)
          out.append((r, s))
      return out
    if sh == 'operator new':
      vals = [self.load(a, st) for a in args]
      base = st.sym('new%d' % len(st.iv), 1, BIG).mul(16)
      al = vals[1] if len(vals) > 1 else K(16)
      self.event(st, 'alloc', base, vals[0], al)
      return [(self.raw(base), st)]
    if sh.startswith('~') and sh[1:] == 'Impl':
      o = self.load(obj, st)
      l = o.loc if isinstance(o, (Ptr, Obj)) else None
      self.event(st, '~impl', l[1] if l else None)
      return [(Top('void'), st)]
    r = super().model(name, n, obj, args, st)
    if r is not None and sh == 'operator delete':
      p = self.load(args[0], st)
      if self.is_raw(p):
        st.dead.add(p.loc)
    return r

  def store(self, loc, v, st):
    for i in range(1, len(loc) + 1):
      if loc[:i] in st.dead:
        self.event(st, 'use-after-free', 0, loc)
        break
    super().store(loc, v, st)


class W:

  def __init__(self, c, F):
    self.c, self.F = c, F
    self.w = {T.short(f['n']): f for f in F.functions if f['n'].startswith('witness::') and f['kind'] == 'plain'}
    R = F.rec('arolla::TypedValue::Impl')
    c.need(R, 'TypedValue::Impl')
    self.impl = R['fields']
    one = lambda fs, p, what: self.one(fs, p, what)
    self.rc = one(self.impl, lambda f: f['t'].endswith('Refcount'), 'count')
    self.qt = one(self.impl, lambda f: 'QTypePtr' in f['t'] or 'QType *' in (f.get('ct') or ''), 'type')
    self.data = one(self.impl, lambda f: f['t'].replace('const ', '').strip() == 'void *', 'data')
    self.h = one(F.rec('arolla::TypedValue')['fields'], lambda f: 'Impl *' in f['t'], 'handle')
    ref = F.rec('arolla::TypedRef')['fields']
    self.rt = one(ref, lambda f: 'QType' in f['t'], 'type of a reference')
    self.rp = one(ref, lambda f: 'void *' in f['t'], 'pointer of a reference')
    sl = F.rec('arolla::TypedSlot')['fields']
    self.st = one(sl, lambda f: 'QType' in f['t'], 'type of a slot')
    self.so = one(sl, lambda f: 'size_t' in f['t'], 'offset of a slot')
    fr = [x for r in F.records.get('arolla::FrameLayout::Slot', []) for x in r['fields']]
    self.fo = one([fr[0]] if fr else [], lambda f: True, 'offset of a frame slot')
    self.fp = {}
    for k in ('FramePtr', 'ConstFramePtr'):
      self.fp[k] = one(F.rec('arolla::' + k)['fields'], lambda f: f['t'].replace('const ', '').strip() == 'void *', k)
    self.size_impl = [int(x['val']) for f in F.functions if f['n'] == 'arolla::TypedValue::AllocRawImpl' for x in T.walk_fn(f) if x['k'] == 'Sizeof' and 'val' in x and T.short(x.get('of') or '') == 'Impl']
    self.bad_keys = set()

  def one(self, fs, p, what):
    r = [f for f in fs if p(f)]
    self.c.need(len(r) == 1, 'typed values: %s not recognised' % what)
    return r[0]['n']

  def state(self, align=8):
    st = absint.State()
    for q in TYPE:
      st.heap[('Q', q, 'layout', 'size')] = st.sym('m' + q, 0, BIG).mul(align)
      st.heap[('Q', q, 'layout', 'align')] = K(align)
    return st

  def interp(self):
    it = I(self.F)
    it.impl = self.impl
    return it

  def node(self, st, name, cnt, q='T'):
    b = st.sym('p' + name, 1, BIG).mul(16)
    d = st.sym('d' + name, 1, BIG).mul(16)
    st.heap[('raw', b, self.rc)] = K(cnt)
    st.heap[('raw', b, self.qt)] = Ptr(('Q', q))
    st.heap[('raw', b, self.data)] = Ptr(('raw', d))
    return Ptr(('raw', b)), d

  def ref(self, st, loc, q, p):
    st.heap[loc + (self.rt,)] = Ptr(('Q', q))
    st.heap[loc + (self.rp,)] = p
    return Obj(loc)

  def slot(self, st, loc, q, off):
    st.heap[loc + (self.st,)] = Ptr(('Q', q))
    st.heap[loc + (self.so,)] = off
    return Obj(loc)

  def frame(self, st, loc, base, const=False):
    st.heap[loc + (self.fp['ConstFramePtr' if const else 'FramePtr'],)] = Ptr(('raw', base))
    return Obj(loc)

  def report(self, f, name, bad, sig=''):
    for x in sorted(set(bad)):
      self.c.bad('%s:%d' % (f['file'], f['l']) if f['file'].startswith('arolla') else 'arolla/qtype/typed_value.h', '%s: %s' % (name, x), key='%s|%s' % (name, x))
    if not bad:
      self.c.ok(name if sig == '' else None)
    self.c.count('abstract_states')

  def common(self, s):
    return sorted({'%s' % e[0] for e in s.log if e[0] in ('null-deref', 'use-after-free', 'out-of-bounds', 'truncation', 'bad-access')})


def lifecycle(w):
  """Handles against counts, for every shape."""
  ops = {'copy': 1, 'move': 1, 'assign': 2, 'move_assign': 2, 'copy_of_copy': 2, 'swap': 2}
  names = {'copy': 'copy construction', 'move': 'move construction', 'assign': 'copy assignment', 'move_assign': 'move assignment', 'copy_of_copy': 'assignment of a temporary', 'swap': 'exchange'}
  own = [f for f in w.F.functions if f['n'] in ('arolla::TypedValue::TypedValue', 'arolla::TypedValue::operator=') and f.get('body')]
  site = {}
  for op in ops:
    assign = op not in ('copy', 'move')
    by = [f for f in own if f['n'].endswith('=') == assign and (f['p'] and ('&&' in f['p'][0]['t']) == (op in ('move', 'move_assign', 'swap')))]
    site[op] = by[-1] if by else own[-1]
  for op, k in ops.items():
    shapes = itertools.product(*[('0', 'A', 'B') for _ in range(k)])
    for shape in shapes:
      for self_alias in ((False, True) if op in ('assign', 'copy_of_copy') else (False,)):
        if self_alias and shape[0] != shape[1]:
          continue
        for extra in (0, 1, 2):
          it = w.interp()
          st = w.state()
          nodes = {}
          locs = [('a',), ('b',)][2 - k:]
          if self_alias:
            locs = [('a',), ('a',)]
          for x in sorted(set(shape) - {'0'}):
            own = len({l for l, y in zip(locs, shape) if y == x})
            nodes[x] = w.node(st, x, own + extra)
          for l, x in zip(locs, shape):
            st.heap[l + (w.h,)] = nodes[x][0] if x != '0' else Ptr(None)
          outs = it.call_fn(w.w[op], None, [Ref(l) for l in locs], st)
          w.c.need(outs, op)
          for v, s in outs:
            bad = w.common(s)
            hs = {l: s.heap.get(l + (w.h,)) for l in set(locs)}
            for x, (p, d) in nodes.items():
              refs = extra + sum(1 for h in hs.values() if h == p)
              freed = [e for e in s.log if e[0] == 'free' and e[1] == p.loc[1]]
              died = [e for e in s.log if e[0] == 'destroy' and e[2] == ('raw', d)]
              gone = [e for e in s.log if e[0] == '~impl' and e[1] == p.loc[1]]
              if refs == 0:
                if len(freed) != 1 or len(died) != 1 or len(gone) != 1:
                  bad.append('a value without handles is destroyed %d times and freed %d times' % (len(died), len(freed)))
                else:
                  o = [s.log.index(e) for e in (died[0], gone[0], freed[0])]
                  if o != sorted(o):
                    bad.append('a value is freed before it is destroyed')
                  if died[0][1] != 'T':
                    bad.append('a value is destroyed as another type')
              else:
                if freed or died or gone:
                  bad.append('a value that still has handles is destroyed')
                elif s.heap.get(p.loc + (w.rc,)) != K(refs):
                  bad.append('the count is %r for %d handles' % (s.heap.get(p.loc + (w.rc,)), refs))
            if op == 'swap':
              if [hs[l] for l in locs] != [nodes[x][0] if x != '0' else Ptr(None) for x in reversed(shape)]:
                bad.append('the values are not exchanged')
            elif k == 2:
              want = nodes[shape[1]][0] if shape[1] != '0' else Ptr(None)
              if hs[locs[0]] != want:
                bad.append('the target does not hold the assigned value')
            if op in ('assign', 'copy', 'copy_of_copy'):
              x = shape[-1]
              if hs[locs[-1]] != (nodes[x][0] if x != '0' else Ptr(None)):
                bad.append('the source is changed')
            if any(e[0] == 'free' and e[1] not in [p.loc[1] for p, _ in nodes.values()] for e in s.log):
              bad.append('something else is freed')
            w.report(site[op], names[op], bad, (shape, self_alias, extra) if extra else '')


def block(w, s, v, it, q, bad):
  """The new value `v`: its block, its storage; -> data address or None."""
  h = s.heap.get(v.loc + (w.h,)) if isinstance(v, (Obj, Ref)) else v
  if not isinstance(h, Ptr) or h.loc is None or h.loc[0] != 'raw':
    raise Unsupported('the value that is returned')
  al = [e for e in s.log if e[0] == 'alloc']
  if len(al) != 1:
    bad.append('%d blocks are allocated for one value' % len(al))
    return None
  base, size = al[0][1], al[0][2]
  if h.loc[1] != base:
    bad.append('the handle does not lead to the start of the block (it could not be freed)')
    return None
  if s.heap.get(h.loc + (w.rc,)) != K(1):
    bad.append('the count of a new value is %r' % s.heap.get(h.loc + (w.rc,)))
  if s.heap.get(h.loc + (w.qt,)) != Ptr(('Q', q)):
    bad.append('the value gets another type')
  d = s.heap.get(h.loc + (w.data,))
  if not isinstance(d, Ptr) or d.loc is None or d.loc[0] != 'raw':
    bad.append('the value has no storage')
    return None
  d = d.loc[1]
  a = s.heap[('Q', q, 'layout', 'align')].const()
  m = s.heap[('Q', q, 'layout', 'size')]
  lo = lambda x: absint.rng(x, s)[0]
  if any(x % a for x in d.c.values()) or d.k % a:
    bad.append('the storage is not aligned to %d' % a)
  if lo(d.add(base, -1)) < w.size_impl[0]:
    bad.append('the storage overlaps the header of the block')
  if lo(base.add(size).add(d.add(m), -1)) < 0:
    bad.append('the storage ends after the end of the block')
  if any(e[0] in ('free', '~impl') for e in s.log):
    bad.append('the block is freed again')
  return d


def creation(w):
  fn = {}
  for f in w.F.functions + w.F.insts:
    if f['file'].startswith('arolla/qtype/typed_value') and f.get('body'):
      fn.setdefault(T.short(f['n']), f)
  w.c.need(w.size_impl and len(set(w.size_impl)) == 1, 'size of the block header')
  for al in (1, 2, 4, 8, 16):
    # the primitive
    it, st = w.interp(), w.state(al)
    f = fn['AllocRawImpl']
    for v, s in it.call_fn(f, None, [it.q('U')], st):
      bad = w.common(s)
      block(w, s, v, it, 'U', bad)
      w.report(f, 'AllocRawImpl', bad, al if al > 1 else '')
    for name in ('from_value', 'from_rvalue', 'from_value_with', 'from_rvalue_with', 'from_ref', 'from_slot', 'default_constructed'):
      for q in (('T', 'T2', 'U') if name.endswith('_with') or name in ('from_ref', 'from_slot', 'default_constructed') else ('T',)):
        it, st = w.interp(), w.state(al)
        p = Ptr(('raw', st.sym('src', 1, BIG)))
        off = st.sym('off', 0, BIG)
        if name.endswith('_with'):
          args = [Ref(('arg',)), it.q(q)]
        elif name == 'from_ref':
          args = [w.ref(st, ('r',), q, p)]
        elif name == 'from_slot':
          args = [w.slot(st, ('s',), q, off), w.frame(st, ('f',), p.loc[1], True)]
        elif name == 'default_constructed':
          args = [it.q(q)]
        else:
          args = [Ref(('arg',))]
        st.heap[('arg', 'x')] = K(7)
        outs = it.call_fn(w.w[name], None, args, st)
        w.c.need(outs, name)
        for v, s in outs:
          bad = w.common(s)
          f = fn['FromValueWithQType' if name.endswith('_with') else 'FromValue' if name.startswith('from_') and name not in ('from_ref', 'from_slot') else 'AllocImpl']
          if name.endswith('_with'):
            if TYPE[q] != TYPE['T']:
              if not is_status(v) or v == OK:
                bad.append('a value of another C++ type is accepted')
              if any(e[0] in ('alloc', 'ctor', 'copy') for e in s.log) and not any(e[0] == 'free' for e in s.log):
                bad.append('a rejected value leaves a block behind')
              w.report(f, name, bad, '.')
              continue
            if is_status(v):
              w.report(f, name, ['a value of the right type is rejected'])
              continue
            v = Obj(v.loc + ('v',))
          d = block(w, s, v, it, q, bad)
          if d is not None:
            ev = [e for e in s.log if e[0] in ('ctor', 'init', 'copy', 'destroy')]
            src = {'from_ref': p.loc, 'from_slot': ('raw', p.loc[1].add(off))}.get(name)
            made = [('ctor', 'T', d, ('arg',))]
            by_copy = [('init', q, ('raw', d)), ('copy', q, src or ('arg',), ('raw', d))]
            plain = [('init', q, ('raw', d))]
            want = [plain] if name == 'default_constructed' else [by_copy] if src else [made, by_copy]
            if ev not in want:
              bad.append('the value is not constructed exactly once, from its source, in its storage (%s)' % [e[0] for e in ev])
          w.report(f, name, bad, '.' if al > 1 else '')


def compound(w):
  """FromFields: sizes and types of the fields are checked, each field is copied to its slot."""
  fs = [f for f in w.F.functions if f['n'] == 'arolla::TypedValue::FromFields' and f.get('body')]
  w.c.need(len(fs) == 2, 'FromFields')
  for f in fs:
    of_ref = 'TypedRef' in (f['p'][1].get('ct') or f['p'][1]['t'])
    for nf, ng in itertools.product(range(4), range(4)):
      for wrong in [None] + list(range(min(nf, ng))):
        it, st = w.interp(), w.state(8)
        offs = [st.sym('o%d' % i, 0, BIG) for i in range(nf)]
        q = ['T', 'U', 'T']
        fl = ('Q', 'U', 'fields')
        it.new_vec(st, fl, [])
        st.heap[fl + ('len',)] = K(nf)
        for i in range(nf):
          w.slot(st, fl + (idx(i),), q[i], offs[i])
        srcs = []
        for i in range(ng):
          t = q[i] if i != wrong else {'T': 'T2', 'U': 'T'}[q[i]]
          l = ('args', idx(i)) if False else ('args',) + (idx(i),)
          if of_ref:
            d = st.sym('src%d' % i, 1, BIG)
            w.ref(st, l, t, Ptr(('raw', d)))
          else:
            p, d = w.node(st, 'S%d' % i, 1, t)
            st.heap[l + (w.h,)] = p
          srcs.append(d)
        it.new_vec(st, ('args',), [])
        st.heap[('args', 'len')] = K(ng)
        it.new_span(st, ('sp',), Ptr(('args', idx(0))), K(ng))
        for v, s in it.call_fn(f, None, [it.q('U'), Obj(('sp',))], st):
          bad = w.common(s)
          if nf != ng or wrong is not None:
            if not is_status(v) or v == OK:
              bad.append('fields that do not match the type are accepted (%s)' % ('number' if nf != ng else 'type'))
          elif is_status(v):
            bad.append('matching fields are rejected')
          else:
            d = block(w, s, Obj(v.loc + ('v',)), it, 'U', bad)
            if d is not None:
              ev = [e for e in s.log if e[0] in ('init', 'copy', 'ctor', 'destroy')]
              want = [('init', 'U', ('raw', d))] + [('copy', q[i], ('raw', srcs[i]), ('raw', d.add(offs[i]))) for i in range(nf)]
              if ev[:1] != want[:1] or sorted(map(repr, ev)) != sorted(map(repr, want)):
                bad.append('the storage is not initialised and then filled with each field once')
          w.report(f, 'FromFields', bad, '.' if nf else '')


def access(w):
  """Typed access: right type -> exactly these bytes, wrong type -> an error and no access."""
  c = w.c
  for name, what in (('value_as', 'TypedValue::As'), ('ref_as', 'TypedRef::As'), ('ref_with', 'TypedRef::FromValueWithQType'), ('to_slot', 'TypedSlot::ToSlot'),
                     ('ref_to_slot', 'TypedRef::CopyToSlot'), ('value_to_slot', 'TypedValue::CopyToSlot'), ('slot_copy', 'TypedSlot::CopyTo'), ('slot_reset', 'TypedSlot::Reset'),
                     ('sub_slot', 'TypedSlot::SubSlot'), ('ref_field', 'TypedRef::GetField'), ('value_field', 'TypedValue::GetField'), ('value_ref', 'TypedValue::AsRef'),
                     ('slot_ref', 'TypedRef::FromSlot'), ('typed_slot', 'TypedSlot::FromSlot')):
    f = [x for x in w.F.functions + w.F.insts if x['n'] == 'arolla::' + what and x.get('body') and (x['kind'] != 'pattern')]
    f = f[0] if f else w.w[name]
    for q, q2 in itertools.product(('T', 'T2', 'U'), ('T', 'T2', 'U')):
      if q2 != 'T' and name not in ('ref_to_slot', 'value_to_slot'):
        continue
      it, st = w.interp(), w.state()
      base, off, off2, base2 = [st.sym(x, 1, BIG) for x in ('base', 'off', 'off2', 'base2')]
      p, d = w.node(st, 'A', 1, q)
      st.heap[('v', w.h)] = p
      r = lambda: w.ref(st, ('r',), q, Ptr(('raw', base)))
      sl = lambda: w.slot(st, ('s',), q, off)
      fl = ('Q', q, 'fields')
      it.new_vec(st, fl, [])
      st.heap[fl + ('len',)] = K(2)
      fo = [st.sym('fo%d' % i, 0, BIG) for i in range(2)]
      for i in range(2):
        w.slot(st, fl + (idx(i),), ('U', 'T')[i], fo[i])
      st.heap[('arg', 'x')] = K(7)
      src = {'ref_to_slot': base, 'value_to_slot': d}.get(name)
      args = {'value_as': lambda: [Ref(('v',))], 'ref_as': lambda: [r()], 'ref_with': lambda: [Ref(('arg',)), it.q(q)], 'to_slot': lambda: [sl()],
              'ref_to_slot': lambda: [r(), w.slot(st, ('d',), q2, off2), w.frame(st, ('f',), base2)],
              'value_to_slot': lambda: [Ref(('v',)), w.slot(st, ('d',), q2, off2), w.frame(st, ('f',), base2)],
              'slot_copy': lambda: [sl(), w.frame(st, ('f',), base, True), w.slot(st, ('d',), q, off2), w.frame(st, ('g',), base2)],
              'slot_reset': lambda: [sl(), w.frame(st, ('f',), base)],
              'sub_slot': lambda: [sl(), K(1)], 'ref_field': lambda: [r(), K(1)], 'value_field': lambda: [Ref(('v',)), K(1)], 'value_ref': lambda: [Ref(('v',))],
              'slot_ref': lambda: [sl(), w.frame(st, ('f',), base, True)],
              'typed_slot': lambda: [fslot(w, st, off)]}[name]()
      outs = it.call_fn(w.w[name], None, args, st)
      c.need(outs, name)
      for v, s in outs:
        bad = w.common(s)
        ev = [e for e in s.log if e[0] in ('copy', 'init', 'destroy', 'ctor')]
        right = TYPE[q] == TYPE['T']
        pair = lambda x: (s.heap.get(x.loc + (w.rt,)), s.heap.get(x.loc + (w.rp,)))
        spair = lambda x: (s.heap.get(x.loc + (w.st,)), s.heap.get(x.loc + (w.so,)))
        raw = lambda a: Ptr(('raw', a))
        if name in ('value_as', 'ref_as', 'ref_with', 'to_slot'):
          if not right:
            if not is_status(v) or v == OK:
              bad.append('a value of another C++ type is accepted')
          elif is_status(v):
            bad.append('a value of the right type is rejected')
          else:
            got = s.heap.get(v.loc + ('v',))
            if name in ('value_as', 'ref_as'):
              want = ('raw', d if name == 'value_as' else base)
              if got != Const(('ref', want)):
                bad.append('the result is not the value itself')
            elif name == 'ref_with':
              if pair(Obj(v.loc + ('v',))) != (it.q(q), Ptr(('arg',))):
                bad.append('the reference does not lead to its value')
            else:
              if s.heap.get(v.loc + ('v', w.fo)) != off:
                bad.append('the slot has another offset')
        elif name in ('ref_to_slot', 'value_to_slot'):
          if q != q2:
            if v == OK or not is_status(v):
              bad.append('a slot of another type is accepted')
            if ev:
              bad.append('a slot of another type is written')
          elif v != OK:
            bad.append('a slot of the right type is rejected')
          elif ev != [('copy', q, ('raw', src), ('raw', base2.add(off2)))]:
            bad.append('the value is not copied once to its slot')
        elif name == 'slot_copy':
          if ev != [('copy', q, ('raw', base.add(off)), ('raw', base2.add(off2)))]:
            bad.append('the value is not copied once from its slot to the other')
        elif name == 'slot_reset':
          if ev != [('destroy', q, ('raw', base.add(off))), ('init', q, ('raw', base.add(off)))]:
            bad.append('the slot is not destroyed once and then initialised once')
        elif name == 'sub_slot':
          if spair(v) != (it.q('T'), off.add(fo[1])):
            bad.append('a sub-slot is not the field of its slot')
        elif name == 'typed_slot':
          if spair(v) != (it.q('T'), off):
            bad.append('the slot has another type or offset')
        else:
          want = {'ref_field': (it.q('T'), raw(base.add(fo[1]))), 'value_field': (it.q('T'), raw(d.add(fo[1]))), 'value_ref': (it.q(q), raw(d)), 'slot_ref': (it.q(q), raw(base.add(off)))}[name]
          if pair(v) != want:
            bad.append('the reference does not lead to its value')
        w.report(f, what, bad, '' if (q, q2) == ('T', 'T') else '.')


def fslot(w, st, off):
  st.heap[('fs', w.fo)] = off
  return Obj(('fs',))


def many(w):
  """ToSlots: number and types."""
  f = [x for x in w.F.insts if x['n'] == 'arolla::TypedSlot::ToSlots']
  w.c.need(f, 'ToSlots')
  for n in range(4):
    for qs in itertools.product(('T', 'U'), repeat=n):
      it, st = w.interp(), w.state()
      it.new_vec(st, ('args',), [])
      st.heap[('args', 'len')] = K(n)
      offs = [st.sym('o%d' % i, 0, BIG) for i in range(n)]
      for i in range(n):
        w.slot(st, ('args', idx(i)), qs[i], offs[i])
      it.new_span(st, ('sp',), Ptr(('args', idx(0))), K(n))
      for v, s in it.call_fn(w.w['to_slots'], None, [Obj(('sp',))], st):
        bad = w.common(s)
        if n != 2 or qs != ('T', 'T'):
          if not is_status(v) or v == OK:
            bad.append('slots of another number or type are accepted')
        elif is_status(v):
          bad.append('slots of the right types are rejected')
        w.report(f[0], 'TypedSlot::ToSlots', bad, '.')


def run(c):
  F = facts.load(facts.Scope(inst=['arolla/qtype/', 'arolla/util/', 'arolla/memory/', '@tu/'], extra=[os.path.join(facts.VERIF, 'tu', 'value.cc')]))
  w = W(c, F)
  for part in (lifecycle, creation, compound, access, many):
    try:
      part(w)
    except Unsupported as e:
      c.undecided(part.__name__, str(e))
  c.need(c.obl > 200 or c.open, 'nothing analysed')


report.main('V01', RULE, run)
