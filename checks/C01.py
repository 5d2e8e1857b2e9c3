"""C01: cancellation reaches every evaluation, once, and callbacks run exactly once."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import absint
from absint import Aff, Ptr, Ref, Obj, Const, Top
import c01_loop
import facts
import report
import tree as T

RULE = ('Abstract interpretation of the cancellation context over all shapes of its callback list and all states another thread can leave it in between two '
        'critical sections: the first status wins, every registered callback runs exactly once, outside the lock, and is then freed; a dropped subscription is unlinked '
        'and freed exactly once, or left alone after cancellation; scope guards set and restore the thread\'s context; the evaluation loop tests it after every operator.')
BIG = 2**30
OK = Const('OK')
CTX = ('ctx',)


class I(absint.Interp):

  def __init__(self, F, L):
    super().__init__(F)
    self.L = L
    self.nxt, self.prv = L['links'][0], L['links'][1]

  # --- shared state ---------------------------------------------------------
  def enter(self, st):
    """The lock was acquired: the state another thread left behind."""
    if st.heap.get(('locked',)):
      self.event(st, 'BAD', 'the mutex is acquired twice')
    st.heap[('locked',)] = True
    kind = st.heap.get(('scene',))
    if st.heap.get(('entered',)):
      return [st]
    st.heap[('entered',)] = True
    out = []
    sure = st.heap.get(('sure',))      # a test outside the lock showed that it is cancelled
    if kind != 'free':
      if not sure:
        out.append(self.populate(st.clone(), kind))
      out.append(self.gone(st.clone()))
    return out

  def populate(self, s, nodes):
    """Not cancelled; `nodes` are registered."""
    L = self.L
    s.heap[CTX + (L['flag'],)] = False
    s.heap[CTX + (L['status'],)] = OK
    s.heap[('alive',)] = True
    s.heap[CTX + (L['head'],)] = Ptr((nodes[0],)) if nodes else Ptr(None)
    for i, x in enumerate(nodes):
      s.heap[(x, '$')] = Const('Node')
      s.heap[(x, L['cb'])] = Const(('cb', x))
      s.heap[(x, self.nxt)] = Ptr((nodes[i + 1],)) if i + 1 < len(nodes) else Ptr(None)
      s.heap[(x, self.prv)] = Ptr((nodes[i - 1],)) if i else Ptr(None)
    return s

  def gone(self, s):
    """Cancelled by another thread, which owns (or has freed) the nodes."""
    L = self.L
    s.heap[CTX + (L['flag'],)] = True
    s.heap[CTX + (L['status'],)] = Const('S0')
    s.heap[CTX + (L['head'],)] = Ptr(None)
    s.heap[('sure',)] = True
    for x in s.heap[('scene',)]:
      s.dead.add((x,))
    return s

  def flag(self, st):
    f = CTX + (self.L['flag'],)
    if st.heap.get(('locked',)) and f in st.heap:
      return [(st.heap[f], st)]
    if st.heap.get(('sure',)) or st.heap.get(f) is True:
      return [(True, st)]
    if st.heap.get(('sole',)):
      return [(st.heap.get(f, False), st)]
    a, b = st.clone(), st.clone()
    if a.heap.get(('entered',)):
      a.heap[('late',)] = True
      for x in a.heap[('scene',)]:
        if not a.heap.get((x, 'owned')):
          a.dead.add((x,))
    else:
      a.heap[('sure',)] = True
      for x in a.heap[('scene',)]:
        a.dead.add((x,))
    return [(True, a), (False, b)]

  def load(self, v, st, t=''):
    if isinstance(v, Ref) and len(v.loc) >= 1 and isinstance(v.loc[0], str):
      x = v.loc[0]
      if len(v.loc) > 1 and x in (st.heap.get(('scene',)) or ()) and not st.heap.get(('locked',)) and not self.owned(x, st):
        self.event(st, 'BAD', 'a callback node that other threads can reach is read without the lock')
      if v.loc[:1] == CTX and len(v.loc) == 2 and v.loc[1] in (self.L['head'], self.L['status']) and not st.heap.get(('locked',)) and not st.heap.get(('sole',)) and v.loc in st.heap:
        self.event(st, 'BAD', '%s is read without the lock' % v.loc[1])
    return super().load(v, st, t)

  def owned(self, x, st):
    """This thread took the node out of the list."""
    if st.heap.get(('sole',)) or st.heap.get((x, 'owned')):
      return True
    if not st.heap.get(('alive',)):
      return False
    h = st.heap.get(CTX + (self.L['head'],))
    return x not in self.chain(h, st)

  def chain(self, h, st):
    out = []
    while isinstance(h, Ptr) and h.loc is not None and len(out) < 8:
      if h.loc[0] in out:
        return out + ['cycle']
      out.append(h.loc[0])
      h = st.heap.get(h.loc + (self.nxt,))
    if not isinstance(h, Ptr):
      out.append('garbage')
    return out

  def wellformed(self, h, st):
    c = self.chain(h, st)
    if len(c) >= 8 or c and c[-1] in ('cycle', 'garbage'):
      return False
    for i, x in enumerate(c):
      if st.heap.get((x, self.prv)) != (Ptr((c[i - 1],)) if i else Ptr(None)) or (x,) in st.dead:
        return False
    return True

  # --- library -----------------------------------------------------------------
  def model(self, name, n, obj, args, st):
    sh = T.short(name)
    cls = n.get('cls') or ''
    if 'Mutex' in cls:
      if n['k'] == 'Ctor' and ('Lock' in cls):
        loc = st.fresh('lock')
        return [(Obj(loc, n), s) for s in self.enter(st)]
      if sh in ('Lock', 'lock', 'WriterLock'):
        return [(Top('void'), s) for s in self.enter(st)]
      if sh in ('Unlock', 'unlock', 'WriterUnlock', 'Release'):
        return [(Top('void'), self.leave(st))]
      return None
    if cls.startswith(('std::lock_guard', 'std::unique_lock', 'std::scoped_lock')) and n['k'] == 'Ctor':
      loc = st.fresh('lock')
      return [(Obj(loc, n), s) for s in self.enter(st)]
    if cls == 'std::atomic_flag':
      l = self.obj_loc(obj, n, st) if n['k'] != 'Ctor' else None
      if n['k'] == 'Ctor':
        return [(False, st)]
      if l != CTX + (self.L['flag'],):
        if sh == 'test':
          return [(False if l and l[0] == 'G' else Top('bool'), st)]
        if l and l[0] == 'G':
          self.event(st, 'BAD', 'the flag that stands for "no context" is changed')
        return None
      if sh == 'test':
        return self.flag(st)
      if sh == 'test_and_set':
        self.event(st, 'set', bool(st.heap.get(('locked',))))
        out = []
        for v, s in self.flag(st):
          s.heap[l] = True
          out.append((v, s))
        return out
      if sh == 'clear':
        self.event(st, 'BAD', 'the cancelled flag is cleared')
        return [(Top('void'), st)]
    if cls.endswith('::Status') or name.endswith('::Status'):
      if n['k'] == 'Ctor':
        if not args:
          return [(OK, st)]
        return [(self.take(args[0], n.get('move'), st), st)]
      if sh == 'ok':
        v = self.load(obj, st)
        return [(v == OK, st)] if isinstance(v, Const) else None
      if n.get('op') == '=':
        v = self.take(args[0], 'move' in repr(n['a'][-1])[:200] or True, st)
        self.store(self.target(obj, st), v, st)
        return [(obj, st)]
      if sh == 'Update':
        l = self.target(obj, st)
        if self.load(obj, st) == OK:
          self.store(l, self.take(args[0], True, st), st)
        return [(Top('void'), st)]
    if name.endswith('OkStatus'):
      return [(OK, st)]
    if name.endswith(('::swap', 'swap')) and len(args) == 2 and n['k'] == 'Call' and cls == '':
      a, b = (self.target(x, st) if isinstance(x, Ref) else None for x in args)
      if a is not None and b is not None:
        sub = {k for k in st.heap if k[:len(a)] == a or k[:len(b)] == b}
        old = {k: st.heap.pop(k) for k in sub}
        for k, v in old.items():
          st.heap[b + k[len(a):] if k[:len(a)] == a else a + k[len(b):]] = v
        return [(Top('void'), st)]
    if 'ny_invocable' in cls or 'AnyInvocable' in cls + name or any('AnyInvocable<' in (x.get('ct') or x.get('t') or '') and not (x.get('t') or '').endswith('*') for x in n.get('a') or [] if n['k'] == 'OCall' and n.get('op') in ('==', '!=', '()')):
      if n['k'] == 'Ctor':
        return [(self.take(args[0], n.get('move'), st) if args else Const(('cb', None)), st)]
      if n.get('op') == '=' or sh == 'operator=':
        v = self.take(args[0], True, st)
        self.store(self.target(obj, st), v, st)
        return [(obj, st)]
      if n.get('op') == '()' or sh == 'operator()':
        o = obj if obj is not None else args[0]
        v = self.load(o, st)
        self.event(st, 'cb', v, bool(st.heap.get(('locked',))), n['l'])
        if isinstance(o, Ref) and o.loc[:1] in st.dead:
          self.event(st, 'BAD', 'a freed callback is invoked')
        if isinstance(v, Const) and v.v == ('cb', None):
          self.event(st, 'BAD', 'an empty callback is invoked')
        return [(Top('void'), st)]
      if sh in ('operator==', 'operator!=', 'operator bool'):
        v = self.load(obj if obj is not None else [a for a in args if isinstance(self.load(a, st), Const)][0], st)
        empty = v == Const(('cb', None))
        return [(empty if sh == 'operator==' else not empty, st)]
    if name == 'std::make_unique':
      loc = st.fresh('up')
      p = st.fresh('made')
      for s in self.blank(p, n, st):
        s.heap[loc + ('up',)] = Ptr(p)
        return [(Obj(loc, n), s)]
    if cls == 'std::unique_ptr' or name.startswith('std::unique_ptr'):
      if n['k'] == 'Ctor':
        if n.get('move') or n.get('copy'):
          return None
        loc = st.fresh('up')
        v = self.load(args[0], st) if args else Ptr(None)
        st.heap[loc + ('up',)] = v
        return [(Obj(loc, n), st)]
      l = self.obj_loc(obj, n, st) if not isinstance(obj, Ptr) else obj.loc
      if isinstance(obj, (Ref, Obj)):
        l = self.target(obj, st) if isinstance(obj, Ref) else obj.loc
      v = st.heap.get(l + ('up',))
      if sh in ('get', 'operator->'):
        return [(v, st)]
      if sh == 'operator*':
        return [(Ref(v.loc), st)]
      if sh == 'release':
        st.heap[l + ('up',)] = Ptr(None)
        return [(v, st)]
      if sh == 'operator bool':
        return [(v.loc is not None, st)]
      if sh == 'reset':
        st.heap[l + ('up',)] = self.load(args[0], st) if args else Ptr(None)
        return self.free(v, n, st)
    if cls.startswith('arolla::RefcountPtr') or name.startswith('arolla::RefcountPtr'):
      return self.refptr(sh, n, obj, args, st)
    if n.get('op') == '=' and n['k'] == 'OCall' and isinstance(obj, Ref) and isinstance(args[0], (Ref, Obj)) and (self.find_fn(n) is None or self.find_fn(n).get('dflt')):
      self.copy_obj(args[0].loc, self.target(obj, st), st)
      return [(obj, st)]
    if name.endswith('LogMessageFatal') or n.get('noreturn'):
      self.event(st, 'abort', n['l'])
      return []
    return None

  def refptr(self, sh, n, obj, args, st):
    pf = 'p'
    if sh in ('NewRef', 'Own') or n['k'] == 'Ctor' and args and isinstance(self.load(args[0], st), Ptr) and not (n.get('copy') or n.get('move')):
      loc = st.fresh('rp')
      v = self.load(args[0], st)
      if not isinstance(v, Ptr) and isinstance(args[0], (Ref, Obj)):
        v = st.heap.get(args[0].loc + ('up',), v)
      st.heap[loc + (pf,)] = v
      return [(Obj(loc, n), st)]
    if n['k'] == 'Ctor':
      loc = st.fresh('rp')
      if args and (n.get('copy') or n.get('move')):
        src = args[0].loc
        st.heap[loc + (pf,)] = st.heap.get(src + (pf,), Top('p'))
        if n.get('move'):
          st.heap[src + (pf,)] = Ptr(None)
      else:
        st.heap[loc + (pf,)] = Ptr(None)
      return [(Obj(loc, n), st)]
    if sh in ('swap',) and obj is None:
      a, b = args[0].loc + (pf,), args[1].loc + (pf,)
      st.heap[a], st.heap[b] = st.heap.get(b), st.heap.get(a)
      return [(Top('void'), st)]
    o = obj if obj is not None else next((a for a in args if isinstance(a, (Ref, Obj))), None)
    if o is None:
      return None
    l = self.target(o, st) if isinstance(o, Ref) else o.loc
    v = st.heap.get(l + (pf,))
    if sh in ('get', 'operator->', 'operator bool'):
      return [(v if sh != 'operator bool' else v.loc is not None, st)]
    if sh == 'operator*':
      return [(Ref(v.loc), st)]
    if sh in ('operator==', 'operator!='):
      ps = []
      for x in ([obj] if obj is not None else []) + list(args):
        y = st.heap.get(self.target(x, st) + (pf,)) if isinstance(x, Ref) else self.load(x, st)
        ps.append(y if isinstance(y, Ptr) else Ptr(None))
      return [((ps[0] == ps[1]) == (sh == 'operator=='), st)]
    if sh == 'operator=':
      w = args[0]
      x = st.heap.get((self.target(w, st) if isinstance(w, Ref) else w.loc) + (pf,)) if isinstance(w, (Ref, Obj)) else Ptr(None)
      st.heap[l + (pf,)] = x if isinstance(x, Ptr) else Ptr(None)
      if isinstance(w, Ref) and 'RefcountPtr' in (n['a'][-1].get('t') or '') and T.strip(n['a'][-1])['k'] in T.CALLS:
        st.heap[self.target(w, st) + (pf,)] = Ptr(None)
      return [(obj, st)]
    if sh == 'reset':
      st.heap[l + (pf,)] = Ptr(None)
      return [(Top('void'), st)]
    if sh == 'release':
      st.heap[l + (pf,)] = Ptr(None)
      return [(v, st)]
    return None

  def blank(self, p, n, st):
    """A freshly allocated node."""
    st.heap[p + ('$',)] = Const('Node')
    st.heap[p + (self.L['cb'],)] = Const(('cb', None))
    for f in self.L['links']:
      st.heap[p + (f,)] = Ptr(None) if f in self.L['nulls'] else Top('garbage')
    return [st]

  def e_New(self, n, st):
    if n.get('place') or n.get('pa'):
      out = []
      for (raw,), s in self.evs(n['pa'], st, self.rv):
        for v, s2 in self.ev(n['init'], s):
          self.copy_obj(v.loc, raw.loc, s2)
          self.consume(v, s2)
          out.append((raw, s2))
      return out
    if 'SubscriptionNode' in (n.get('t') or '') or self.L['node'].rsplit('::')[-1] in (n.get('t') or ''):
      p = st.fresh('made')
      return [(Ptr(p), s) for s in self.blank(p, n, st)]
    return super().e_New(n, st)

  def take(self, a, move, st):
    v = self.load(a, st)
    if move and isinstance(a, Ref) and isinstance(v, Const):
      st.heap[self.target(a, st)] = Const('moved') if not isinstance(v.v, tuple) else Const(('cb', 'moved'))
    return v

  def free(self, v, n, st):
    if isinstance(v, Ptr) and v.loc is not None:
      self.event(st, 'delete', n['l'], v.loc)
      if v.loc in st.dead:
        self.event(st, 'double-delete', n['l'], v.loc)
      self.event(st, 'free', v.loc[0], bool(st.heap.get(('locked',))))
      st.dead.add(v.loc)
    return [(Top('void'), st)]

  def e_Delete(self, n, st):
    out = []
    for v, s in self.rv(n['e'], st):
      out += self.free(v, n, s)
    return out

  def leave(self, st):
    if not st.heap.get(('locked',)):
      self.event(st, 'BAD', 'the mutex is released twice')
    st.heap[('locked',)] = False
    if st.heap.get(('alive',)) and not st.heap.get(('sole',)):
      h = st.heap.get(CTX + (self.L['head'],))
      flag = st.heap.get(CTX + (self.L['flag'],))
      stat = st.heap.get(CTX + (self.L['status'],))
      if not self.wellformed(h, st):
        self.event(st, 'BAD', 'the callback list is left broken (%s)' % self.chain(h, st))
      if flag != (stat != OK):
        self.event(st, 'BAD', 'the lock is released with the flag %s and status %s' % (flag, stat))
      elif flag and h != Ptr(None):
        self.event(st, 'BAD', 'the lock is released with callbacks still registered in a cancelled context')
      st.heap[('final',)] = tuple(self.chain(h, st))
      # what is in the list belongs to everyone from here on
    return st

  def run_dtor(self, v, loc, st):
    c = v.get('dtor_cls') or v.get('cls') or v.get('ct') or v.get('t') or ''
    if loc[0].startswith('lock#'):
      return [self.leave(st)]
    if (loc + ('up',)) in st.heap:
      self.free(st.heap[loc + ('up',)], dict(l=v.get('l') or 0), st)
      return [st]
    if (loc + ('p',)) in st.heap or 'RefcountPtr' in c:
      return [st]
    return super().run_dtor(v, loc, st)


def layout(c, F):
  R = F.rec('arolla::CancellationContext')
  c.need(R, 'CancellationContext not found')
  flag = [f['n'] for f in R['fields'] if 'atomic_flag' in f['ct'] or 'atomic<bool>' in f['ct']]
  stat = [f['n'] for f in R['fields'] if f['ct'].endswith('Status')]
  head = [f['n'] for f in R['fields'] if f['ct'].endswith('*')]
  mx = [f['n'] for f in R['fields'] if 'utex' in f['ct']]
  c.need(len(flag) == len(stat) == len(head) == len(mx) == 1, 'layout of CancellationContext')
  node = [f['ct'].rstrip(' *') for f in R['fields'] if f['n'] == head[0]][0]
  N = F.rec(node)
  c.need(N, 'list node of CancellationContext')
  cb = [f['n'] for f in N['fields'] if 'Invocable' in f['ct'] or 'function' in f['ct']]
  links = [f['n'] for f in N['fields'] if f['ct'].rstrip(' *') == node]
  c.need(len(cb) == 1 and len(links) == 2, 'layout of the list node')
  S = F.rec('arolla::CancellationContext::Subscription')
  sc = [f['n'] for f in S['fields'] if 'RefcountPtr' in f['ct']]
  sn = [f['n'] for f in S['fields'] if f['ct'].endswith('*')]
  G = F.rec('arolla::CancellationContext::ScopeGuard')
  gc = [f['n'] for f in G['fields'] if 'RefcountPtr' in f['ct']]
  gp = [f['n'] for f in G['fields'] if f['ct'].endswith('*')]
  c.need(len(sc) == len(sn) == len(gc) == len(gp) == 1, 'layout of the handles')
  tl = [(r, r['fields']) for n, r in ((k, v[0]) for k, v in F.records.items()) if n.startswith('arolla::CancellationContext::ScopeGuard::') and len(r['fields']) == 3]
  c.need(len(tl) == 1, 'layout of the thread-local data')
  tlf = {}
  for f in tl[0][1]:
    tlf['flag' if 'atomic' in f['ct'] else 'ctx' if 'CancellationContext *' in f['ct'] else 'guard'] = f['n']
  c.need(len(tlf) == 3, 'layout of the thread-local data')
  null = [f['n'] for f in N['fields'] if f['n'] in links and (T.strip(f.get('i')) or {}).get('k') in ('Null_', 'Init', 'Zero')]
  return dict(flag=flag[0], status=stat[0], head=head[0], node=node, cb=cb[0], links=links, sub=(sc[0], sn[0]), guard=(gc[0], gp[0]), tl=tlf, nulls=null)


class Bad(list):
  def __call__(self, key, what):
    self.append((key, what))


def common(s, bad, case, allow=()):
  for e in s.log:
    if e[0] == 'BAD':
      bad('x' + e[1][:20], '%s: %s' % (case, e[1]))
    elif e[0] in ('use-after-free', 'double-delete', 'null-deref'):
      bad(e[0], '%s: %s' % (case, e[0]))
    elif e[0] == 'cb' and e[2]:
      bad('cb-locked', '%s: a callback is invoked while the lock is held' % case)
    elif e[0] == 'free' and e[2]:
      bad('free-locked', '%s: a callback is destroyed while the lock is held' % case)
  if s.heap.get(('locked',)):
    bad('held', '%s: the lock is still held at the end' % case)


def cbs(s):
  return [e[1].v[1] for e in s.log if e[0] == 'cb' and isinstance(e[1], Const)]


def freed(s):
  return [e[2][0] for e in s.log if e[0] == 'delete' and e[2]]


def context(F, L, W, count):
  """All obligations of CancellationContext under one reading of the two links."""
  bad = Bad()
  done = []

  def run(name, args, scene, prep=None, sole=False):
    it = I(F, L)
    st = absint.State()
    st.heap[('scene',)] = tuple(scene)
    for x in scene:
      st.heap[(x, '$')] = Const('Node')
    if sole:
      st.heap[('sole',)] = True
    if prep:
      prep(st, it)
    outs = it.call_fn(W[name], None, args(st), st)
    count()
    return it, outs

  # Cancel
  for k in range(4):
    nodes = tuple('N%d' % i for i in range(k))
    for arg in ('S', 'OK'):
      def mk(st):
        st.heap[('arg',)] = Const(arg)
        return [Ptr(CTX), Ref(('arg',))]
      it, outs = run('cancel', mk, nodes)
      won = False
      for _, s in outs:
        case = 'Cancel(%s) with %d callbacks' % ('error' if arg == 'S' else 'ok status', k)
        common(s, bad, case)
        stat, flag = s.heap.get(CTX + (L['status'],)), s.heap.get(CTX + (L['flag'],))
        if arg == 'OK':
          if cbs(s) or freed(s) or s.heap.get(('alive',)) and stat != OK:
            bad('ok-status', case + ': an ok status cancels the context')
          continue
        if s.heap.get(('alive',)):
          won = True
          case += ', not cancelled before'
          if stat != Const('S') or flag is not True:
            bad('not-cancelled', case + ': status %s, flag %s afterwards' % (stat, flag))
          if sorted(map(str, cbs(s))) != sorted(nodes):
            bad('callbacks', case + ': callbacks %s run instead of %s' % (cbs(s), list(nodes)))
          if sorted(freed(s)) != sorted(nodes):
            bad('nodes', case + ': nodes %s are freed instead of %s' % (freed(s), list(nodes)))
          order = [(e[0], (e[1].v[1] if e[0] == 'cb' else e[2][0])) for e in s.log if e[0] == 'cb' and isinstance(e[1], Const) or e[0] == 'delete' and e[2]]
          for i, (what, x) in enumerate(order):
            if what == 'cb' and ('delete', x) in order[:i]:
              bad('after-free', case + ': a callback runs after it was freed')
        else:
          if cbs(s) or freed(s):
            bad('twice', case + ': callbacks run although the context had been cancelled before')
          if s.heap.get(('entered',)) and stat != Const('S0'):
            bad('status-replaced', case + ': a later status replaces the first one')
        done.append(case)
      if arg == 'S' and not won:
        bad('never', 'Cancel never cancels a context with %d callbacks' % k)
  # GetStatus, Cancelled
  it, outs = run('status', lambda st: [Ptr(CTX)], ())
  for v, s in outs:
    common(s, bad, 'GetStatus')
    want = OK if s.heap.get(('alive',)) else Const('S0')
    if v != want:
      bad('get-status', 'GetStatus returns %s, the status is %s' % (v, want))
    done.append('GetStatus')
  for val in (True, False):
    def prep(st, it):
      st.heap[CTX + (L['flag'],)] = val
      st.heap[('locked',)] = True
    it, outs = run('cancelled_of', lambda st: [Ptr(CTX)], (), prep)
    for v, s in outs:
      if v is not val:
        bad('cancelled', 'Cancelled() is %s for a context whose flag is %s' % (v, val))
      done.append('Cancelled')
  # Subscribe
  for k in range(3):
    nodes = tuple('N%d' % i for i in range(k))
    for cb in (('cb', 'new'), ('cb', None)):
      def mk(st):
        st.heap[('arg',)] = Const(cb)
        return [Ptr(CTX), Ref(('arg',)), Ptr(('out',))]
      it, outs = run('subscribe', mk, nodes)
      stored = False
      for _, s in outs:
        case = 'Subscribe(%s) with %d callbacks' % ('callback' if cb[1] else 'null', k)
        common(s, bad, case)
        rp, nd = s.heap.get(('out', L['sub'][0], 'p')), s.heap.get(('out', L['sub'][1]))
        made = sorted({x[0] for x in s.heap if x[0].startswith('made#') and x[-1] == '$'})
        leak = [m for m in made if (m,) not in s.dead and m not in (s.heap.get(('final',)) or ())]
        if leak:
          bad('leak', case + ': the new node is neither registered nor freed')
        if s.heap.get(('alive',)) and cb[1]:
          stored = True
          fin = s.heap.get(('final',)) or ()
          if [x for x in fin if x in nodes] != list(nodes) or len(fin) != k + 1:
            bad('list', case + ': the list becomes %s' % (fin,))
            continue
          new = [x for x in fin if x not in nodes][0]
          if (new,) in s.dead:
            bad('freed-registered', case + ': the registered node is freed')
          if s.heap.get((new, L['cb'])) != Const(cb):
            bad('lost', case + ': the registered node does not hold the callback')
          if cbs(s):
            bad('early', case + ': the callback runs although the context is not cancelled')
          if rp != Ptr(CTX) or nd != Ptr((new,)):
            bad('handle', case + ': the handle refers to %s/%s' % (rp, nd))
        else:
          want = ['new'] if cb[1] else []
          if cbs(s) != want:
            bad('run-once', case + ' on a cancelled context: callbacks run: %s' % cbs(s) if cb[1] else case + ': callbacks run: %s' % cbs(s))
          if s.heap.get(('final',)) not in (None, (), nodes):
            bad('late-registration', case + ': registered in a cancelled context')
          if not (rp in (None, Ptr(None)) or nd in (None, Ptr(None))):
            bad('handle2', case + ': the handle of a callback that is not registered is not empty')
        done.append(case)
      if cb[1] and not stored:
        bad('never-stored', 'Subscribe never registers the callback')
  # dropping a subscription
  for k, pos in ((1, 0), (2, 0), (2, 1), (3, 1), (0, None), (1, None)):
    nodes = tuple('N%d' % i for i in range(k))
    for ctx in (True, False):
      def prep(st, it):
        st.heap[('sub', '$')] = Const('Subscription')
        st.heap[('sub', L['sub'][0], 'p')] = Ptr(CTX) if ctx else Ptr(None)
        st.heap[('sub', L['sub'][1])] = Ptr((nodes[pos],)) if pos is not None else Ptr(None)
      if (pos is None) == ctx:
        continue          # handles are either empty or complete
      it, outs = run('drop', lambda st: [Ptr(('sub',))], nodes, prep)
      removed = False
      for _, s in outs:
        case = 'dropping the subscription of node %s of %d' % (pos, k) if ctx else 'dropping an empty subscription'
        common(s, bad, case)
        if cbs(s):
          bad('drop-cb', case + ': a callback runs')
        if ctx and s.heap.get(('alive',)):
          removed = True
          rest = tuple(x for x in nodes if x != nodes[pos])
          if s.heap.get(('final',)) != rest:
            bad('unlink', case + ': the list becomes %s' % (s.heap.get(('final',)),))
          if freed(s) != [nodes[pos]]:
            bad('drop-free', case + ': nodes %s are freed' % freed(s))
        elif freed(s):
          bad('drop-free2', case + ': a node is freed that belongs to the cancelling thread')
        done.append(case)
      if ctx and not removed:
        bad('never-removed', 'dropping a subscription never unregisters it')
  # handles
  for name in ('move', 'assign'):
    for to, fr in ((0, 1), (1, 0), (1, 1), (0, 0)):
      if name == 'move' and to:
        continue
      def prep(st, it):
        for h, full, nn in (('to', to, 'A'), ('from', fr, 'B')):
          st.heap[(h, '$')] = Const('Subscription')
          st.heap[(h, L['sub'][0], 'p')] = Ptr(CTX) if full else Ptr(None)
          st.heap[(h, L['sub'][1])] = Ptr((nn,)) if full else Ptr(None)
        if name == 'move':
          for x in [x for x in st.heap if x[0] == 'to']:
            del st.heap[x]
      it, outs = run(name, lambda st: [Ptr(('to',)) if name == 'move' else Ref(('to',)), Ref(('from',))], ('A', 'B'), prep)
      for _, s in outs:
        case = '%s of a %s handle%s' % ('move construction' if name == 'move' else 'move assignment', 'full' if fr else 'empty', ' over a full one' if to else '')
        if freed(s) and not to:
          bad('move-free', case + ': a node is freed')
        g = lambda h: (s.heap.get((h, L['sub'][0], 'p')), s.heap.get((h, L['sub'][1])))
        want = (Ptr(CTX), Ptr(('B',))) if fr else (Ptr(None), Ptr(None))
        if g('to') != want and not (not fr and Ptr(None) in g('to')):
          bad('move-to', case + ': the target becomes %s' % (g('to'),))
        left = g('from')
        empty = Ptr(None) in left
        if not to and not empty:
          bad('move-from', case + ': the source still owns the registration')
        if to and not (left == (Ptr(CTX), Ptr(('A',))) or empty and 'A' in freed(s) + [x for x in ()] or s.heap.get(('final',)) is not None or s.heap.get(('sure',))):
          bad('move-lost', case + ': the registration of the target is lost')
        done.append(case)
  def prep(st, it):
    st.heap[('sub', '$')] = Const('Subscription')
    st.heap[('sub', L['sub'][0], 'p')] = Ptr(CTX)
    st.heap[('sub', L['sub'][1])] = Ptr(('A',))
  it, outs = run('detach', lambda st: [Ref(('sub',))], ('A',), prep)
  for _, s in outs:
    if freed(s) or ('entered',) in s.heap:
      bad('detach', 'Detach unregisters the callback')
    if not (s.heap.get(('sub', L['sub'][0], 'p')) == Ptr(None) or s.heap.get(('sub', L['sub'][1])) == Ptr(None)):
      bad('detach2', 'Detach leaves a handle that unregisters the callback')
    done.append('Detach')
  # destroying a context
  d = [f for f in F.functions if f.get('dtor') and f.get('cls') == 'arolla::CancellationContext' and f.get('body')]
  for k in range(4):
    nodes = tuple('N%d' % i for i in range(k))
    it = I(F, L)
    st = absint.State()
    st.heap[('scene',)] = nodes
    st.heap[('sole',)] = True
    it.populate(st, nodes)
    outs = it.call_fn(d[0], CTX, [], st) if d else [(None, st)]
    count()
    for _, s in outs:
      case = 'destruction with %d callbacks' % k
      common(s, bad, case)
      if sorted(freed(s)) != sorted(nodes):
        bad('dtor', case + ': nodes %s are freed' % freed(s))
      if cbs(s):
        bad('dtor-cb', case + ': a callback runs')
      done.append(case)
  return bad, done


def guards(c, F, L, W, w):
  """Thread-local current context."""
  G = [f for f in F.functions if f.get('cls') == 'arolla::CancellationContext::ScopeGuard' and f.get('body')]
  ctor = [f for f in G if f.get('ctor') and len(f['p']) == 1]
  dtor = [f for f in G if f.get('dtor')]
  c.need(len(ctor) == 1 and len(dtor) == 1, 'ScopeGuard constructor and destructor')
  tl = None
  for n in T.walk(W['current']['body']):
    pass
  gname = [n['n'] for f in G for n in T.walk_fn(f) if n['k'] == 'Ref' and 'd' not in n and n.get('dk') not in ('fn', 'enum') and 'ThreadLocal' in (n.get('ct') or n.get('t') or '')]
  gname += ['arolla::CancellationContext::ScopeGuard::' + n['m'] for f in G for n in T.walk_fn(f) if n['k'] == 'Mem' and not n.get('field') and 'ThreadLocal' in (n.get('t') or '')]
  c.need(gname, 'thread-local data')
  gname = sorted(set(gname))[0]
  tl = ('G', gname)
  f, t = L['tl'], L['guard']
  stub = None

  def data(s):
    g = lambda k: s.heap.get(tl + (f[k],))
    return g('flag'), g('ctx'), g('guard')

  def expect(guard, ctx):
    return (Ptr(ctx + (L['flag'],)), Ptr(ctx), Ptr(guard)) if ctx else ('stub', Ptr(None), Ptr(guard))

  def check(s, want, case):
    nonlocal stub
    got = data(s)
    fl = got[0]
    if want[0] == 'stub':
      good = isinstance(fl, Ptr) and fl.loc is not None and fl.loc[0] == 'G'
      if good:
        stub = stub or fl.loc
        good = fl.loc == stub
    else:
      good = fl == want[0]
    if not good or got[1:] != want[1:]:
      c.bad(w, '%s: the current context becomes %s' % (case, got), 'guard|' + case)
    else:
      c.ok(case)
  A, B = ('CA',), ('CB',)
  for outer in (None, 'guard-null', 'guard-ctx'):
    for inner in (None, B):
      it = I(F, L)
      st = absint.State()
      st.heap[('scene',)] = ()
      st.heap[tl + (f['flag'],)] = Ptr(('G', 'stub?')) if outer != 'guard-ctx' else Ptr(A + (L['flag'],))
      st.heap[tl + (f['ctx'],)] = Ptr(A) if outer == 'guard-ctx' else Ptr(None)
      st.heap[tl + (f['guard'],)] = Ptr(None) if outer is None else Ptr(('g0',))
      if outer:
        st.heap[('g0', t[0], 'p')] = Ptr(A) if outer == 'guard-ctx' else Ptr(None)
        st.heap[('g0', t[1])] = Ptr(None)
      st.heap[('arg', 'p')] = Ptr(inner)
      case = 'guard with %s context inside %s' % ('a' if inner else 'no', {None: 'no guard', 'guard-null': 'a guard without context', 'guard-ctx': 'a guard with a context'}[outer])
      outs = it.call_fn(ctor[0], ('g1',), [Ref(('arg',))], st)
      c.count('abstract_executions')
      c.need(outs, 'ScopeGuard constructor')
      for _, s in outs:
        check(s, expect(('g1',), inner), 'entering a ' + case)
        if s.heap.get(('g1', t[0], 'p')) != Ptr(inner):
          c.bad(w, 'entering a %s: the guard does not keep the context alive' % case, 'guard-owns')
        c.ok()
        s.log = []
        outs2 = it.call_fn(dtor[0], ('g1',), [], s)
        if not outs2:
          c.bad(w, 'leaving a %s aborts' % case, 'guard-abort')
        for _, s2 in outs2:
          check(s2, expect(('g0',) if outer else None, A if outer == 'guard-ctx' else None), 'leaving a ' + case)
  # Cancelled(), CheckCancellation()
  for has in (True, False):
    for flag in ((True, False) if has else (False,)):
      for fn in ('cancelled', 'check', 'current'):
        it = I(F, L)
        st = absint.State()
        st.heap[('scene',)] = ()
        st.heap[tl + (f['flag'],)] = Ptr(CTX + (L['flag'],)) if has else Ptr(stub or ('G', 'stub'))
        st.heap[tl + (f['ctx'],)] = Ptr(CTX) if has else Ptr(None)
        if flag:
          st.heap[('sure',)] = True
        elif has:
          st.heap[('sole',)] = True
          st.heap[CTX + (L['flag'],)] = False
          st.heap[CTX + (L['status'],)] = OK
          st.heap[CTX + (L['head'],)] = Ptr(None)
        outs = it.call_fn(W[fn], None, [], st)
        c.count('abstract_executions')
        c.need(outs, fn)
        case = '%s with %s' % ({'cancelled': 'Cancelled()', 'check': 'CheckCancellation()', 'current': 'current_cancellation_context()'}[fn], 'no context' if not has else 'a cancelled context' if flag else 'a context')
        want = {'cancelled': flag, 'check': Const('S0') if flag else OK, 'current': Ptr(CTX) if has else Ptr(None)}[fn]
        for v, s in outs:
          if any(e[0] in ('null-deref', 'BAD') for e in s.log):
            c.bad(w, case + ': %s' % [e for e in s.log if e[0] in ('null-deref', 'BAD')][0][-1], 'current-' + fn)
          elif v != want:
            c.bad(w, '%s gives %s' % (case, v), 'current-' + fn)
          else:
            c.ok(case)


def run(c):
  F = facts.load(facts.Scope(inst=['arolla/util/', 'arolla/qexpr/', '@tu/'], extra=[os.path.join(facts.VERIF, 'tu', 'cancellation.cc')]))
  W = {T.short(f['n']): f for f in F.functions if f['n'].startswith('witness::')}
  L = layout(c, F)
  w = 'arolla/util/cancellation.cc:1'
  res = []
  for links in (L['links'][::-1], L['links']):
    L2 = dict(L, links=links)
    bad, done = context(F, L2, W, lambda: c.count('abstract_executions'))
    res.append((bad, done))
    if not bad:
      break
  bad, done = res[0] if res[-1][0] else res[-1]
  for k in done:
    c.ok(k)
  seen = set()
  for key, what in bad:
    if key not in seen:
      seen.add(key)
      c.bad(w, what, key)
  guards(c, F, L, W, w)
  c01_loop.run(c, F)


if __name__ == '__main__':
  report.main('C01', RULE, run)
