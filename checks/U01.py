"""U01: parallel task execution: every task exactly once, all threads joined."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import absint
from absint import Aff, Ptr, Ref, Obj, Const, Top, Fn
import facts
import report
import tree as T

RULE = ('Abstract interpretation of the task runner with a symbolic number of tasks N and parallelism P (interference of other '
        'workers on the shared counter at every atomic step): each worker claims an index by one atomic read-modify-write, runs '
        'task[index] exactly once iff index < N, stops only when the claimed index is >= N; between 1 and P workers are started '
        'when N,P >= 1 and every started thread is joined on every path before returning.')
BIG = 2**30


class I(absint.Interp):
  rigid = ('N', 'P')
  in_worker = False
  mult = ()

  def canon_extra(self, st):
    # the obligations that are still pending
    return ('pending',) in st.heap

  def bad(self, st, what, line=0):
    st.log.append(('BAD', what))

  # --- atomics -------------------------------------------------------------
  def claim(self, v, st):
    """A fresh unique index v was obtained."""
    self.settle(st, 'before the next claim')
    st.heap[('pending',)] = v

  def settle(self, st, when):
    p = st.heap.get(('pending',))
    if p is None:
      return
    lo, hi = absint.rng(p.add(Aff({'N': 1}), -1), st)
    if lo < 0:
      self.bad(st, 'a claimed task index that may be < N is never run (%s)' % when)
    st.heap.pop(('pending',))

  def model(self, name, n, obj, args, st):
    sh = T.short(name)
    cls = n.get('cls') or ''
    if cls.startswith(('std::atomic', 'std::__atomic_base')):
      if n['k'] == 'Ctor':
        loc = st.fresh('atomic')
        st.heap[loc] = self.load(args[0], st) if args else Aff((), 0)
        if not (isinstance(st.heap[loc], Aff) and st.heap[loc].const() == 0):
          self.bad(st, 'the shared task counter starts at %r' % st.heap[loc])
        return [(st.heap[loc], st)]
      return self.atomic(sh, n, obj, args, st)
    if name.startswith('std::vector') or cls.startswith('std::vector'):
      return self.vector(sh, n, obj, args, st)
    if name == 'std::make_unique' or name == 'std::make_shared':
      if any('thread' in a for a in n.get('ta') or []):
        return self.start(args, st, n)
    if cls == 'std::unique_ptr' or cls == 'std::shared_ptr' or cls.startswith('std::__shared_ptr'):
      if n['k'] == 'Ctor':
        return [(self.load(args[0], st), st)] if args else [(Ptr(None), st)]
      v = self.load(obj, st) if obj is not None else self.load(args[0], st)
      if sh in ('operator->', 'get', 'operator*'):
        return [(v if sh != 'operator*' else v, st)]
    if cls in ('std::thread', 'std::jthread'):
      if n['k'] == 'Ctor':
        if args and not (n.get('move')):
          return self.start(args, st, n, cls)
        return [(self.load(args[0], st) if args else Top(), st)]
      if sh == 'join':
        return self.join(n, obj, st)
      if sh == 'detach':
        self.bad(st, 'a worker thread is detached')
        return [(Top('void'), st)]
      if sh == 'hardware_concurrency':
        return [(st.sym('hc', 0, BIG), st)]
      if sh == 'joinable':
        return [(True, st)]
    if name in ('std::for_each', 'absl::c_for_each') and isinstance(self.load(args[-1], st), Fn):
      v = args[0]
      c = self.load(v, st)
      loc = c.v[1] if isinstance(c, Const) and isinstance(c.v, tuple) and c.v[0] == 'begin' else v.loc if name.startswith('absl') else None
      if loc is None:
        raise absint.Unsupported(name)
      return self.each(loc, self.load(args[-1], st), n, st)
    if cls.startswith('__gnu_cxx::__normal_iterator') or name.startswith('__gnu_cxx::__normal_iterator'):
      v = self.load(obj if obj is not None else args[0], st)
      if sh in ('operator*', 'operator->') and isinstance(v, Ptr):
        return [(Ref(v.loc) if sh == 'operator*' else v, st)]
    if cls == 'std::function' or name.startswith('std::function'):
      if n['k'] == 'Ctor':
        return [(self.load(args[0], st), st)] if args else [(Top(), st)]
      if sh in ('operator bool', 'operator==', 'operator!='):
        return [(Top('bool'), st)]
      if sh == 'operator()':
        return self.run_task(n, obj, args, st)
    return None

  def run_task(self, n, obj, args, st):
    v = self.load(obj, st)
    if isinstance(v, Ref) and v.loc[0] == 'task':
      idx = v.loc[1]
      self.ran = True
      if idx == 'each' or (self.mult and isinstance(idx, Aff) and idx.k == 0 and idx.c == {self.mult[-1][2]: 1}
                           and self.mult[-1][0] == Aff((), 0) and self.mult[-1][1] == Aff({'N': 1})):
        st.log.append(('run-all', n['l']))
        return [(Top('void'), st)]
      p = st.heap.get(('pending',))
      d = idx.add(Aff({'N': 1}), -1)
      if absint.rng(d, st)[1] >= 0:
        self.bad(st, 'task index may be out of range when it is run')
      if p is None or p != idx:
        self.bad(st, 'runs a task whose index was not uniquely claimed (or runs it twice)')
      else:
        st.heap.pop(('pending',))
      st.log.append(('run', repr(idx), n['l']))
      return [(Top('void'), st)]
    f = self.load(v, st)
    if isinstance(f, Fn):
      return self.apply_lambda(f, args, st)
    st.log.append(('opaque-call', n['l']))
    return [(Top('void'), st)]

  def atomic(self, sh, n, obj, args, st):
    if sh in ('fetch_add', 'operator++', 'operator+='):
      post = sh == 'fetch_add' or (sh == 'operator++' and args)
      d = Aff((), 1)
      if sh != 'operator++':
        d = self.load(args[0], st)
      if d != Aff((), 1):
        self.bad(st, 'the shared counter advances by %r' % d)
      v = st.sym('id%d' % len(st.iv), 0, BIG)
      self.claim(v, st)
      return [(v if post else v.add(Aff((), 1)), st)]
    if sh == 'load' or sh.startswith('operator ') or sh.startswith('operator unsigned'):
      return [(st.sym('ld%d' % len(st.iv), 0, BIG), st)]
    if sh.startswith('compare_exchange'):
      exp = self.load(args[0], st)
      new = self.load(args[1], st)
      ok, no = st.clone(), st.clone()
      if isinstance(exp, Aff) and new == exp.add(Aff((), 1)):
        self.claim(exp, ok)
      else:
        self.bad(ok, 'compare-exchange does not advance the counter by one')
      self.store(self.target(args[0], no), no.sym('ld%d' % len(no.iv), 0, BIG), no)
      return [(True, ok), (False, no)]
    if sh in ('store', 'operator=', 'exchange'):
      self.bad(st, 'the shared counter is overwritten non-atomically: two workers may claim one task')
      return [(Top(), st)]
    raise absint.Unsupported('atomic ' + sh)

  # --- threads ---------------------------------------------------------------
  def start(self, args, st, n, cls='std::thread'):
    f = self.load(args[0], st) if args else None
    if isinstance(f, Fn):
      sub = st.clone()
      sub.log = []
      if len(args) > 1:
        for a in args[1:]:
          pass
      saved = self.mult
      for v, s in self.apply_lambda(f, args[1:], sub):
        self.settle(s, 'when the worker exits')
        for e in s.log:
          if e[0] == 'BAD':
            st.log.append(e)
          if e[0] == 'run-all':
            st.log.append(('BAD', 'every worker runs all the tasks'))
      self.workers += 1
      self.mult = saved
    else:
      st.log.append(('opaque-start', n['l']))
    m = Aff((), 1)
    for lo, hi, _ in self.mult:
      m = hi.add(lo, -1)
    st.log.append(('start', n['l'], m))
    loc = st.fresh('thr')
    st.heap[loc + ('thread',)] = m
    if cls == 'std::jthread':
      st.log.append(('join', n['l'], m))
    return [(Ptr(loc) if n['k'] != 'Ctor' else Obj(loc, n), st)]

  def join(self, n, obj, st):
    v = obj if isinstance(obj, (Ref, Obj, Ptr)) else self.load(obj, st)
    if isinstance(v, Ref):
      w = st.heap.get(v.loc)
      if isinstance(w, (Ptr, Ref)):
        v = w
    loc = v.loc
    m = Aff((), 1)
    rngs = list(self.mult)
    if loc and loc[0] == 'elem':
      # element of a container inside a counting loop
      cont, idx = loc[1], loc[2]
      if idx == 'each':
        m = st.heap.get(cont + ('count',), Aff((), 0))
      elif isinstance(idx, Aff) and rngs and len(idx.c) == 1 and rngs[-1][0].const() is not None:
        lo, hi, _ = rngs[-1]
        first = lo.add(Aff((), idx.k))
        m = hi.add(lo, -1) if first.const() == 0 else None
      else:
        m = None
    if m is None:
      self.bad(st, 'the joined thread range does not start at the first thread')
      m = Aff((), 0)
    st.log.append(('join', n['l'], m))
    return [(Top('void'), st)]

  # --- containers --------------------------------------------------------------
  def vector(self, sh, n, obj, args, st):
    if n['k'] == 'Ctor':
      loc = st.fresh('vec')
      st.heap[loc + ('count',)] = Aff((), 0)
      return [(Obj(loc, n), st)]
    loc = self.obj_loc(obj, n, st)
    if sh in ('begin', 'end', 'cbegin', 'cend'):
      return [(Const((sh.lstrip('c'), loc)), st)]
    if loc == ('tasks',):
      if sh == 'size':
        return [(Aff({'N': 1}), st)]
      if sh == 'empty':
        return [(b, s) for b, s in self.fork_cmp('==', Aff({'N': 1}), st)]
      if sh in ('operator[]', 'at'):
        i = self.load(args[0], st)
        return [(Ref(('task', i)), st)]
      raise absint.Unsupported('task list operation ' + sh)
    cnt = st.heap.get(loc + ('count',), Aff((), 0))
    if sh in ('push_back', 'emplace_back'):
      m = Aff((), 1)
      for lo, hi, _ in self.mult:
        m = hi.add(lo, -1)
      if sh == 'emplace_back' and 'thread' in (n.get('cls') and n['o'].get('t', '')) and isinstance(self.load(args[0], st), Fn):
        self.start(args, st, n)
      st.heap[loc + ('count',)] = cnt.add(m)
      return [(Top('void'), st)]
    if sh in ('operator[]', 'at'):
      return [(Ref(('elem', loc, self.load(args[0], st))), st)]
    if sh == 'size':
      return [(cnt, st)]
    if sh == 'empty':
      return [(b, s) for b, s in self.fork_cmp('==', cnt, st)]
    if sh in ('reserve',):
      return [(Top('void'), st)]
    return None

  def load(self, v, st, t=''):
    if isinstance(v, Ref) and v.loc and v.loc[0] in ('elem', 'task'):
      return Ptr(v.loc) if v.loc[0] == 'elem' else v
    return super().load(v, st, t)

  # --- counting loops --------------------------------------------------------------
  def s_While(self, n, st):
    f = self.as_for(n)
    if f and f['var'] in st.env:
      lo = self.load(Ref(st.env[f['var']]), st)
      if isinstance(lo, Aff) and not any(k.startswith('id') for k in lo.c):
        return self.counting(f, f['var'], st)
    return super().s_While(n, st)

  def s_For(self, n, st):
    c = n.get('cond')
    ini = n.get('init')
    inc = n.get('inc')
    if ini and ini['k'] == 'Decl' and inc and len(ini['v']) == 1:
      d = ini['v'][0]['d']
      i0 = ini['v'][0].get('i')
      if inc['k'] in ('Un', 'OCall') and i0 is not None and i0['k'] == 'MCall' and T.short(T.callee_name(i0)) in ('begin', 'cbegin'):
        return self.range_for({'range': i0['o'], 'var': ini['v'][0], 'body': n['body'], 'l': n['l']}, st, iterator=True)
      if c and c['k'] == 'Bin' and c['op'] in ('<', '!=', '<=') and T.strip(c['x'])['k'] == 'Ref' and T.strip(c['x']).get('d') == d \
          and inc['k'] == 'Un' and inc['op'] == '++' and T.strip(inc['e']).get('d') == d:
        out = []
        for s in self.declare(ini['v'][0], st):
          out += self.counting(n, d, s)
        return out
      if c and c['k'] == 'Bin' and c['op'] in ('>=', '>') and T.strip(c['x'])['k'] == 'Ref' and T.strip(c['x']).get('d') == d \
          and inc['k'] == 'Un' and inc['op'] == '--' and T.strip(inc['e']).get('d') == d:
        out = []
        for s in self.declare(ini['v'][0], st):
          first = self.load(Ref(s.env[d]), s)
          for last, s2 in self.rv(c['y'], s):
            if not (isinstance(last, Aff) and isinstance(first, Aff)):
              raise absint.Unsupported('loop bounds')
            out += self.range(n, d, last.add(Aff((), 1 if c['op'] == '>' else 0)), first.add(Aff((), 1)), s2)
        return out
    return super().s_For(n, st)

  def unknown(self, n, obj, args, st):
    for a in [obj] + list(args):
      v = self.load(a, st) if isinstance(a, Ref) else a
      if isinstance(v, Fn) or (isinstance(v, (Ref, Obj, Ptr)) and v.loc and (v.loc[0] in ('tasks', 'task', 'elem') or v.loc[0].startswith(('vec#', 'thr#')))):
        raise absint.Unsupported('call of %s' % T.callee_name(n))
    return super().unknown(n, obj, args, st)

  def each(self, loc, f, n, st):
    """f(e) for each element of the container at `loc`."""
    saved = self.mult
    v = Ref(('task', 'each')) if loc == ('tasks',) else Ref(('elem', loc, 'each'))
    return [(Top('void'), s) for _, s in self.apply_lambda(f, [v], st)]

  def counting(self, n, d, s):
    c = n['cond']
    lo = self.load(Ref(s.env[d]), s)
    out = []
    for hi, s2 in self.rv(c['y'], s):
      if not (isinstance(lo, Aff) and isinstance(hi, Aff)):
        raise absint.Unsupported('loop bounds')
      out += self.range(n, d, lo, hi.add(Aff((), 1)) if c['op'] == '<=' else hi, s2)
    return out

  def range(self, n, d, lo, hi, s2):
      out = []
      i = s2.sym('i%d' % len(s2.iv), -BIG, BIG)
      self.refine(i.add(lo, -1), '>=', s2)
      self.refine(i.add(hi, -1), '<', s2)
      s2.heap[s2.env[d]] = i
      saved = self.mult
      self.mult = saved + ((lo, hi, list(i.c)[0]),)
      for kind, v, s3 in self.st(n['body'], s2):
        if kind in ('brk', 'ret'):
          self.bad(s3, 'the loop over the threads may stop early')
        s3.heap[s3.env[d]] = hi
        out.append((kind if kind == 'ret' else 'fall', v, s3))
      self.mult = saved
      return out

  def s_RangeFor(self, n, st):
    return self.range_for(n, st)

  def range_for(self, n, st, iterator=False):
    out = []
    for r, s in self.ev(n['range'], st):
      loc = r.loc if isinstance(r, (Ref, Obj)) else None
      if loc is None:
        raise absint.Unsupported('range for')
      el = s.fresh('el')
      s.env[n['var']['d']] = el
      s.heap[el] = Ref(('task', 'each')) if loc == ('tasks',) else Ptr(('elem', loc, 'each'))
      if iterator:
        s.heap[el + ('at',)] = s.heap[el]
        s.heap[el] = Ptr(el + ('at',))
      for kind, v, s3 in self.st(n['body'], s):
        if kind in ('brk', 'ret'):
          self.bad(s3, 'the loop over the threads may stop early')
        out.append((kind if kind == 'ret' else 'fall', v, s3))
    return out


def run(c):
  F = facts.load(facts.Scope(inst=['arolla/util/threading', '@tu/'], only=['arolla/util/threading'],
                             extra=[os.path.join(facts.VERIF, 'tu', 'threading.cc')]))
  fn = F.fn('arolla::ExecuteTasksInParallel')
  c.need(len(fn) == 1, 'task runner not found')
  fn = fn[0]
  c.need(len(fn['p']) == 2, 'task runner signature')
  for case, (nlo, nhi) in {'N = 0': (0, 0), 'N >= 1': (1, BIG)}.items():
    it = I(F)
    it.workers = 0
    it.ran = False
    st = absint.State()
    st.iv = {'N': (nlo, nhi), 'P': (1, BIG)}
    outs = it.call_fn(fn, None, [Aff({'P': 1}), Ref(('tasks',))], st)
    c.need(outs, 'no outcome')
    w = '%s:%d' % (fn['file'], fn['l'])
    for v, s in outs:
      bads = [e[1] for e in s.log if e[0] == 'BAD']
      p = s.heap.get(('pending',))
      if p is not None:
        it.settle(s, 'when the caller returns')
        bads = [e[1] for e in s.log if e[0] == 'BAD']
      inline_runs = any(e[0] == 'run' for e in s.log)
      starts = [e for e in s.log if e[0] == 'start']
      joins = [e for e in s.log if e[0] == 'join']
      total = Aff((), 0)
      for e in starts:
        total = total.add(e[2])
      tj = Aff((), 0)
      for e in joins:
        tj = tj.add(e[2])
      last_start = max([i for i, e in enumerate(s.log) if e[0] == 'start'] or [-1])
      if total != tj:
        lo, hi = absint.rng(total.add(tj, -1), s)
        if not lo == hi == 0:
          bads.append('%r threads are started but %r are joined before returning' % (total, tj))
      lo, hi = absint.rng(total.add(Aff({'P': 1}), -1), s)
      if hi > 0:
        bads.append('more workers than the requested parallelism may be started (%r)' % total)
      alls = sum(1 for e in s.log if e[0] == 'run-all')
      if alls > 1 or (alls and (starts or inline_runs)):
        bads.append('a task is run more than once')
      if nlo >= 1 and not inline_runs and not alls:
        lo, hi = absint.rng(total, s)
        if lo < 1:
          bads.append('no worker may be started although there are tasks')
        if not it.ran:
          bads.append('workers never run a task')
      for b in sorted(set(bads)):
        c.bad(w, b, b)
      if not bads:
        c.ok('%s: %r workers started, %r joined' % (case, total, tj))
      c.count('abstract_paths')
  # StartThread: the returned waiter joins the thread that runs fn.
  for f in F.fn('arolla::StdThreading::StartThread'):
    it = I(F)
    it.workers = 0
    st = absint.State()
    st.heap[('fnobj',)] = Const('task')
    outs = it.call_fn(f, ('std_threading',), [Const('task')], st)
    for v, s in outs:
      bads = [e[1] for e in s.log if e[0] == 'BAD']
      starts = [e for e in s.log if e[0] in ('start',)]
      w = '%s:%d' % (f['file'], f['l'])
      if len(starts) != 1:
        bads.append('starts %d threads' % len(starts))
      if not isinstance(v, Fn):
        bads.append('does not return a callable that waits for the thread')
      else:
        for _, s2 in it.apply_lambda(v, [], s.clone()):
          j = [e for e in s2.log if e[0] == 'join']
          if len(j) != 1:
            bads.append('the returned waiter joins %d threads' % len(j))
          bads += [e[1] for e in s2.log if e[0] == 'BAD']
      for b in sorted(set(bads)):
        c.bad(w, b, b)
      if not bads:
        c.ok('StartThread: one thread, joined by the returned waiter')
  # Default WithThreading runs fn exactly once.
  f = F.fn('arolla::ThreadingInterface::WithThreading')
  c.need(f, 'WithThreading not found')
  it = I(F)
  it.workers = 0
  st = absint.State()
  for v, s in it.call_fn(f[0], ('ti',), [Const('root')], st):
    k = sum(1 for e in s.log if e[0] == 'opaque-call')
    c.ok('WithThreading runs the root once') if k == 1 else c.bad('%s:%d' % (f[0]['file'], f[0]['l']), 'the root function is run %d times' % k)


report.main('U01', RULE, run)
