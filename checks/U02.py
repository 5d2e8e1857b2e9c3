"""U02: intrusive reference counts: ownership balance and memory ordering."""
import itertools
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import absint
from absint import Aff, Ptr, Ref, Obj, Const
import facts
import report
import tree as T

RULE = ('Abstract interpretation of every reference-count and smart-pointer operation over a symbolic heap: all shapes of '
        '(lhs, rhs) in {null, A, B, alias, member of A} and any number of outside owners; afterwards count == owners, an object '
        'is destroyed exactly once and exactly when the last owner goes, nothing is read after destruction; count updates are '
        'single atomic read-modify-writes whose orderings make earlier writes visible to the destroying thread.')
BIG = 2**30
ACQ = ('acquire', 'acq_rel', 'seq_cst')
REL = ('release', 'acq_rel', 'seq_cst')


class I(absint.Interp):
  interference = False

  def __init__(self, F, layout):
    super().__init__(F)
    self.layout = layout
    self.orders = []

  def order(self, args, i, st):
    if len(args) <= i:
      return 'seq_cst'
    v = args[i]
    if isinstance(v, Ref) and v.loc[0] == 'G':
      return v.loc[1].rsplit('memory_order_', 1)[-1].rsplit('::', 1)[-1]
    v = self.load(v, st)
    if isinstance(v, absint.Aff) and v.const() is not None:
      k = v.const()
      return ('relaxed', 'consume', 'acquire', 'release', 'acq_rel', 'seq_cst')[k] if 0 <= k <= 5 else repr(v)
    if isinstance(v, Const):
      return v.v[1].rsplit('memory_order_', 1)[-1].rsplit('::', 1)[-1]
    return 'seq_cst' if isinstance(v, absint.Top) else repr(v)

  def model(self, name, n, obj, args, st):
    sh = T.short(name)
    cls = n.get('cls') or ''
    if cls.startswith(('std::atomic', 'std::__atomic_base')) and sh.startswith('atomic') is False or sh.startswith('operator') and cls.startswith(('std::atomic', 'std::__atomic')):
      return self.atomic(sh, n, obj, args, st)
    if n['k'] == 'Ctor' and cls.startswith('std::atomic'):
      loc = st.fresh('atomic')
      st.heap[loc] = self.load(args[0], st) if args else Aff((), 0)
      return [(st.heap[loc], st)]
    if name == 'std::atomic_thread_fence':
      self.event(st, 'fence', self.order(args, 0, st), n['l'])
      return [(absint.Top('void'), st)]
    if name == 'std::make_unique':
      p = st.fresh('new')
      self.init_node(p, Aff((), 1), st)
      loc = st.fresh('up')
      st.heap[loc + ('up',)] = Ptr(p)
      return [(Obj(loc, n), st)]
    if cls == 'std::unique_ptr' or name.startswith('std::unique_ptr'):
      if sh in ('release', 'get'):
        l = self.obj_loc(obj, n, st)
        v = st.heap.get(l + ('up',))
        if sh == 'release':
          st.heap[l + ('up',)] = Ptr(None)
        return [(v, st)]
    return None

  def init_node(self, p, cnt, st):
    st.heap[p + ('$',)] = Const('Node')
    st.heap[p + self.layout] = cnt

  def atomic(self, sh, n, obj, args, st):
    l = self.obj_loc(obj, n, st)
    if l is None:
      raise absint.Unsupported('atomic object')
    cur = self.load(Ref(l), st)
    if sh == 'load' or sh.startswith('operator ') or sh.startswith('operator int') or sh.startswith('operator __'):
      o = self.order(args, 0, st)
      self.event(st, 'load', o, l, n['l'])
      if self.interference and not st.heap.get(('sole',)):
        out = []
        for sole in (True, False):
          s = st.clone()
          v = Aff((), 1) if sole else s.sym('c%d' % len(s.iv), 2, BIG)
          if sole:
            s.heap[('sole',)] = True
          s.heap[l] = v
          out.append((v, s))
        return out
      return [(cur, st)]
    if sh in ('store', 'operator='):
      self.event(st, 'plain-store', self.order(args, 1, st), l, n['l'])
      v = self.load(args[0], st)
      st.heap[l] = v
      return [(v, st)]
    delta = None
    post = False
    if sh in ('fetch_add', 'fetch_sub'):
      d = self.load(args[0], st)
      delta = d.const() if isinstance(d, Aff) else None
      if delta is not None and sh == 'fetch_sub':
        delta = -delta
      o = self.order(args, 1, st)
    elif sh in ('operator++', 'operator--'):
      delta = 1 if sh == 'operator++' else -1
      post = not args
      o = 'seq_cst'
    elif sh in ('operator+=', 'operator-='):
      d = self.load(args[0], st)
      delta = d.const() if isinstance(d, Aff) else None
      delta = -delta if sh == 'operator-=' and delta is not None else delta
      post = True
      o = 'seq_cst'
    if delta is None:
      raise absint.Unsupported('atomic operation ' + sh)
    outs = []
    if self.interference and not st.heap.get(('sole',)):
      for sole in (True, False):
        s = st.clone()
        v = Aff((), 1) if sole else s.sym('c%d' % len(s.iv), 2, BIG)
        outs.append((v, s))
    else:
      outs = [(cur, st)]
    res = []
    for v, s in outs:
      s.heap[l] = v.add(Aff((), delta))
      self.event(s, 'rmw', delta, o, l, n['l'], v)
      res.append((s.heap[l] if post else v, s))
    return res

  def e_New(self, n, st):
    if n.get('place'):
      out = []
      for (raw,), s in self.evs(n['pa'], st, self.rv):
        for v, s2 in self.ev(n['init'], s):
          self.copy_obj(v.loc, raw.loc, s2)
          self.consume(v, s2)
          out.append((raw, s2))
      return out
    return super().e_New(n, st)

  def run_dtor(self, v, loc, st):
    outs = super().run_dtor(v, loc, st)
    if st.heap.get(loc + ('$',)) == Const('Node'):
      # implicit destructor: members are destroyed
      nxt = []
      for s in outs:
        nxt += self.kill_members(loc, s)
      outs = nxt
    return outs

  def kill_members(self, loc, s):
    if loc + ('next', 'ptr') in s.heap or loc + ('next', self.pf) in s.heap:
      return [s2 for _, s2 in self.call_fn(self.dtor, loc + ('next',), [], s)]
    return [s]

  def e_Expr(self, n, st):
    if n.get('sc') == 'CXXPseudoDestructorExpr':
      return [(absint.Top('void'), st)]
    return super().e_Expr(n, st)


def run(c):
  F = facts.load(facts.Scope(inst=['arolla/util/', '@tu/'], extra=[os.path.join(facts.VERIF, 'tu', 'refcount.cc')]))
  wit = {T.short(f['n']): f for f in F.functions if f['n'].startswith('witness::')}
  base = F.rec('arolla::RefcountedBase')
  rc = F.rec('arolla::Refcount')
  c.need(base and rc, 'reference count classes not found')
  f1 = [f['n'] for f in base['fields'] if 'Refcount' in f['t']]
  f2 = [f['n'] for f in rc['fields'] if 'atomic' in f['ct']]
  for f in rc['fields']:
    if 'atomic' not in f['ct']:
      c.bad('arolla/util/refcount.h:%d' % f['l'], 'the reference count field %s is not atomic' % f['n'])
      return
  c.need(len(f1) == 1 and len(f2) == 1, 'layout of the reference count')
  layout = (f1[0], f2[0])
  ptr_rec = [r for r in F.record_insts if r['n'] == 'arolla::RefcountPtr']
  c.need(ptr_rec, 'RefcountPtr<Node> not instantiated')
  pf = [f['n'] for f in ptr_rec[0]['fields'] if f['ct'].rstrip().endswith('*')]
  c.need(len(pf) == 1, 'layout of the smart pointer')
  pf = pf[0]
  dtor = [f for f in F.insts if f.get('dtor') and f['cls'] == 'arolla::RefcountPtr']
  c.need(dtor, 'destructor not instantiated')

  def mk():
    it = I(F, layout)
    it.pf = pf
    it.dtor = dtor[0]
    return it

  def site(it, pref):
    u = sorted((x for x in it.inlined if pref in x))
    return u[-1].split(' ')[0] if u else pref + ':1'

  # --- 1. the counter, under interference of other owners -------------------
  for name, delta in (('inc', 1), ('dec', -1), ('sdec', -1)):
    it = mk()
    it.interference = True
    st = absint.State()
    st.heap[('rc', f2[0])] = st.sym('c0', 1, BIG)
    outs = it.call_fn(wit[name], None, [Ref(('rc',))], st)
    c.need(outs, 'no outcome for ' + name)
    for v, s in outs:
      rmw = [e for e in s.log if e[0] == 'rmw']
      loads = [e for e in s.log if e[0] == 'load']
      stores = [e for e in s.log if e[0] == 'plain-store']
      fences = [e for e in s.log if e[0] == 'fence']
      last = any(isinstance(e[5], Aff) and e[5].const() == 1 for e in rmw if e[1] == -1) or (bool(s.heap.get(('sole',))))
      w = site(it, 'util/refcount.h')
      if stores:
        c.bad(w, '%s updates the count with a separate store: concurrent owners lose updates' % name, name + '-store')
        continue
      total = sum(e[1] for e in rmw)
      if name == 'inc':
        (c.ok('increment: one atomic +1') if total == 1 and len(rmw) == 1 else
         c.bad(w, 'increment changes the count by %d in %d atomic operations' % (total, len(rmw)), 'inc'))
        continue
      if last:
        if v is not False:
          c.bad(w, '%s does not report that the last reference is gone' % name, name + '-last')
          continue
        if rmw and total != -1:
          c.bad(w, '%s changes the count by %d' % (name, total), name + '-delta')
          continue
        if rmw:
          o = [e[2] for e in rmw if e[1] == -1][0]
          good = o in ACQ or any(f[1] in ACQ for f in fences) or any(e[1] in ACQ for e in loads)
          why = 'the final decrement (memory order %s) does not acquire the other owners\' writes' % o
        else:
          o = loads[0][1]
          good = o in ACQ or any(f[1] in ACQ for f in fences)
          why = 'the count is read with memory order %s before destruction' % o
        c.ok('%s (last owner): order %s' % (name, o)) if good else c.bad(w, '%s: %s' % (name, why), name + '-acquire')
      else:
        if v is not True:
          c.bad(w, '%s reports the last reference while other owners remain' % name, name + '-notlast')
          continue
        if total != -1 or len(rmw) != 1:
          c.bad(w, '%s changes the count by %d while other owners remain' % (name, total), name + '-delta2')
          continue
        o = rmw[0][2]
        good = o in REL or any(f[1] in REL for f in fences)
        c.ok('%s (other owners): order %s' % (name, o)) if good else \
            c.bad(w, '%s: decrement with memory order %s does not release this owner\'s writes' % (name, o), name + '-release')
  it = mk()
  st = absint.State()
  for v, s in it.call_fn(wit['fresh'], None, [], st):
    vals = [x for k, x in s.heap.items() if k[-1] == f2[0]]
    if vals and all(isinstance(x, Aff) and x.const() == 1 for x in vals):
      c.ok('a new object starts with one owner')
    else:
      c.bad(site(it, 'util/refcount.h'), 'a new object starts with count %r' % vals, 'init')

  # --- 2. the smart pointer ---------------------------------------------------
  A, B = ('A',), ('B',)
  shapes = [('lhs=%s rhs=%s' % (l, r), l, r) for l in ('null', 'A') for r in ('null', 'A', 'B')]
  shapes += [('lhs=rhs (same variable) -> %s' % l, l, 'alias') for l in ('null', 'A')]
  shapes += [('lhs=A rhs=member of A -> B', 'A', 'member')]
  exts = list(itertools.product((0, 1), (0, 1)))
  for name, f in sorted(wit.items()):
    if name in ('inc', 'dec', 'sdec', 'fresh'):
      continue
    for (shape, l, r), (ea, eb) in itertools.product(shapes, exts):
      it = mk()
      st = absint.State()
      if name == 'destroy' and r == 'alias':
        continue
      if name in ('arrow', 'deref') and l == 'null':
        continue
      if r == 'alias' and name in ('move_assign',):
        pass
      slots = {}
      lhs = ('lhs',)
      rhs = {'alias': lhs, 'member': A + ('next',)}.get(r, ('rhs',))
      tgt = {'null': None, 'A': A, 'B': B, 'member': B}
      slots[lhs] = tgt[l]
      if r != 'alias':
        slots[rhs] = tgt[r]
      ext = {A: st.sym('extA', 0 if not ea else 1, 0 if not ea else BIG), B: st.sym('extB', 0 if not eb else 1, 0 if not eb else BIG)}
      cnt = {}
      for o in (A, B):
        owners = sum(1 for x in slots.values() if x == o)
        if owners == 0 and (ea if o == A else eb) == 0:
          ext[o] = Aff((), 1)       # an object always has an owner to begin with
        cnt[o] = ext[o].add(Aff((), owners))
        it.init_node(o, cnt[o], st)
      for sl, o in slots.items():
        st.heap[sl + (pf,)] = Ptr(o)
      raw = ('raw',)
      args = [Ref(lhs), Ref(rhs)]
      if name.endswith('_keep'):
        args.append(Ptr(raw))
      arg = None
      if name == 'new_ref_keep':
        arg = tgt[l]
        args.append(Ptr(arg))
      outs = it.call_fn(f, None, args, st)
      c.count('abstract_executions')
      w = site(it, 'util/refcount_ptr.h')
      c.need(outs, 'no outcome for ' + name)
      for v, s in outs:
        case = '%s with %s, outside owners A:%s B:%s' % (name, shape, '>=1' if ea else '0', '>=1' if eb else '0')
        bad = None
        for e in s.log:
          if e[0] in ('use-after-free', 'double-delete', 'null-deref'):
            bad = e[0]
        if bad:
          c.bad(w, '%s: %s' % (case, bad), name + bad)
          continue
        live = {}
        for sl in list(slots) + ([raw] if name.endswith('_keep') else []):
          if any(sl[:len(d)] == d for d in s.dead) or (name == 'destroy' and sl == lhs):
            continue
          p = s.heap.get(sl + (pf,))
          live[sl] = p.loc if isinstance(p, Ptr) else '?'
        # expected contents
        exp = dict(slots)
        if name == 'copy_assign':
          exp[lhs] = slots.get(rhs, slots[lhs])
        elif name == 'reset':
          exp[lhs] = None
        elif name == 'swap_' and r != 'alias':
          exp[lhs], exp[rhs] = slots[rhs], slots[lhs]
        elif name == 'copy_ctor_keep':
          exp[raw] = slots.get(rhs, slots[lhs])
        elif name == 'move_ctor_keep':
          exp[raw] = slots.get(rhs, slots[lhs])
          exp[rhs] = 'any'
        elif name == 'move_assign':
          exp[lhs] = slots.get(rhs, slots[lhs]) if r != 'alias' else 'any'
          if r != 'alias':
            exp[rhs] = 'any'
        elif name == 'new_ref_keep':
          exp[raw] = arg
        elif name in ('null_keep', 'dflt_keep'):
          exp[raw] = None
        elif name in ('own_keep', 'make_keep'):
          exp[raw] = 'new'
        for sl, o in live.items():
          e = exp.get(sl)
          if e == 'any':
            continue
          if e == 'new':
            if not (isinstance(o, tuple) and o[0].startswith('new')):
              bad = 'result does not point to the new object'
          elif o != e:
            bad = 'pointer ends up at %s instead of %s' % (o, e)
        if '?' in live.values():
          bad = 'pointer value lost'
        for o in [A, B] + [k[:1] for k in s.heap if k[0].startswith('new') and len(k) == 2 and k[1] == '$']:
          e = ext.get(o, Aff((), 0))
          owners = e.add(Aff((), sum(1 for x in live.values() if x == o)))
          lo, hi = absint.rng(owners, s)
          if o in s.dead:
            if hi > 0:
              bad = 'object %s is destroyed while owned' % o[0]
          elif lo == hi == 0:
            bad = 'object %s leaks: no owner left, not destroyed' % o[0]
          else:
            have = s.heap.get(o + layout)
            if have != owners:
              bad = 'count of %s is %r with %r owners' % (o[0], have, owners)
        if name in ('get', 'arrow', 'deref') and v != Ptr(slots[lhs]):
          bad = 'returns %r' % (v,)
        if name == 'eq' and v is not (slots[lhs] == slots.get(rhs, slots[lhs])):
          bad = 'returns %r' % (v,)
        if name == 'eq_null' and v is not (slots[lhs] is None):
          bad = 'returns %r' % (v,)
        c.bad(w, '%s: %s' % (case, bad), name + str(bad)[:12]) if bad else c.ok(case)
  c.count('smart_pointer_operations', len(wit) - 4)


report.main('U02', RULE, run)
