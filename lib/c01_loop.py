"""The evaluation loop: runs operators in order, stops at errors and on cancellation."""
import absint
from absint import Aff, Ptr, Ref, Obj, Const, Top
import tree as T

OK = Const('OK')
CTX = ('cc',)
EC = ('ec',)


class I(absint.Interp):

  def __init__(self, F, n, L, tl, E):
    super().__init__(F)
    self.n = n
    self.L, self.tl, self.E = L, tl, E

  def bad(self, st, what):
    self.event(st, 'BAD', what)

  def canon_extra(self, st):
    return tuple(sorted((k, repr(st.heap.get((k,)))) for k in ('must-test', 'stopped', 'expect', 'last')))

  def ran(self, st, i):
    """Operator i runs: anything may come of it."""
    if st.heap.get(('must-test',)):
      self.bad(st, 'the cancellation context is not tested between two operators')
    if st.heap.get(('stopped',)):
      self.bad(st, 'an operator runs after %s' % st.heap[('stopped',)].v)
    exp = st.heap.get(('expect',), Aff((), 0)).const()
    if i != exp:
      self.bad(st, 'operator %d runs instead of operator %s' % (i, exp))
    if self.load(Ref(EC + (self.E['signal'],)), st) is not False or self.load(Ref(EC + (self.E['status'],)), st) != OK:
      self.bad(st, 'an operator starts with a pending signal')
    st.heap[('must-test',)] = bool(st.heap.get(('ctx',)))
    st.heap[('last',)] = Aff((), i)
    outs = []
    s = st.clone()
    s.heap[('expect',)] = Aff((), i + 1)
    outs.append(s)
    s = st.clone()
    s.heap[EC + (self.E['status'],)] = Const('ERR')
    s.heap[EC + (self.E['signal'],)] = True
    s.heap[('stopped',)] = Const('an operator failed')
    outs.append(s)
    s = s.clone()
    s.heap[EC + (self.E['jump'],)] = Aff((), 1)
    outs.append(s)
    for j in range(-i - 1, self.n - i - 1 + 1):
      # a jump to the end (n) is a jump past the last operator
      s = st.clone()
      s.heap[EC + (self.E['jump'],)] = Aff((), j)
      s.heap[EC + (self.E['signal'],)] = True
      s.heap[('expect',)] = Aff((), i + 1 + j)
      outs.append(s)
    return outs

  def model(self, name, n, obj, args, st):
    sh = T.short(name)
    cls = n.get('cls') or ''
    if sh == 'Run' and 'BoundOperator' in (cls or name):
      o = obj if isinstance(obj, Ptr) or isinstance(obj, Ref) and obj.loc[0] == 'op' else self.load(obj, st)
      if isinstance(o, (Ptr, Ref)) and o.loc and o.loc[0] == 'op':
        return [(Top('void'), s) for s in self.ran(st, o.loc[1])]
      return None
    if 'Span' in cls:
      if sh in ('size', 'length'):
        return [(Aff((), self.n), st)]
      if sh == 'empty':
        return [(self.n == 0, st)]
      if sh in ('operator[]', 'at'):
        i = self.load(args[0], st)
        if not isinstance(i, Aff) or i.const() is None:
          raise absint.Unsupported('operator index')
        if not 0 <= i.const() < self.n:
          self.bad(st, 'operator %s of %d is run' % (i.const(), self.n))
          return []
        return [(Ref(('ops', i.const())), st)]
      if n['k'] == 'Ctor':
        return [(Const('span'), st)]
    if cls == 'std::unique_ptr' or name.startswith('std::unique_ptr'):
      l = self.target(obj, st) if isinstance(obj, Ref) else None
      if l and l[0] == 'ops':
        if sh in ('operator->', 'get'):
          return [(Ptr(('op', l[1])), st)]
        if sh == 'operator*':
          return [(Ref(('op', l[1])), st)]
    if cls == 'std::atomic_flag' and sh == 'test':
      l = self.obj_loc(obj, n, st)
      if l is not None and l[0] == 'G':
        return [(False, st)]
      if l is not None and l[:1] != CTX:
        return [(Top('bool'), st)]
      st.heap[('must-test',)] = False
      if st.heap.get(('cancelled',)):
        return [(True, st)]
      a, b = st.clone(), st.clone()
      a.heap[('cancelled',)] = True
      a.heap[('stopped',)] = Const('the context was cancelled')
      return [(True, a), (False, b)]
    if sh == 'GetStatus' and 'Cancellation' in name or sh == 'CheckCancellation':
      if not st.heap.get(('ctx',)):
        if sh == 'GetStatus':
          self.bad(st, 'the status of no context is read')
        return [(OK, st)]
      if sh == 'CheckCancellation':
        st.heap[('must-test',)] = False
        if not st.heap.get(('cancelled',)):
          a, b = st.clone(), st.clone()
          a.heap[('cancelled',)] = True
          a.heap[('stopped',)] = Const('the context was cancelled')
          return [(Const('CANCELLED'), a), (OK, b)]
      return [(Const('CANCELLED') if st.heap.get(('cancelled',)) else OK, st)]
    if cls.endswith('::Status') or name.endswith('::Status'):
      if n['k'] == 'Ctor':
        return [(self.load(args[0], st) if args else OK, st)]
      if sh == 'ok':
        v = self.load(obj, st)
        return [(v == OK, st)] if isinstance(v, Const) else None
      if n.get('op') == '=':
        self.store(self.target(obj, st), self.load(args[0], st), st)
        return [(obj, st)]
    if name.endswith('OkStatus'):
      return [(OK, st)]
    if n.get('noreturn'):
      return []
    return None


def run(c, F):
  R = F.rec('arolla::EvaluationContext')
  c.need(R, 'EvaluationContext not found')
  E = {}
  for f in R['fields']:
    k = 'signal' if f['ct'] == 'bool' else 'status' if f['ct'].endswith('Status') else 'jump' if f['ct'] in ('long', 'int64_t', 'std::int64_t') else None
    if k:
      c.need(k not in E, 'layout of EvaluationContext')
      E[k] = f['n']
  c.need(len(E) == 3, 'layout of EvaluationContext')
  fn = [f for f in F.functions if f['n'] == 'arolla::RunBoundOperators' and f.get('body')]
  c.need(len(fn) == 1, 'RunBoundOperators not found')
  fn = fn[0]
  CR = F.rec('arolla::CancellationContext')
  flag = [f['n'] for f in CR['fields'] if 'atomic_flag' in f['ct']][0]
  tl = [(n, r[0]) for n, r in F.records.items() if n.startswith('arolla::CancellationContext::ScopeGuard::') and len(r[0]['fields']) == 3]
  cur = [f for f in F.functions if f['n'].endswith('::current_cancellation_context')][0]
  tlv = [n['n'] for n in T.walk(cur['body']) if n['k'] == 'Ref' and n.get('dk') == 'smember']
  tlv += [n['mq'] for n in T.walk(cur['body']) if n['k'] == 'Mem' and not n.get('field')]
  c.need(tlv, 'thread-local data')
  fl = {}
  for f in tl[0][1]['fields']:
    fl['flag' if 'atomic' in f['ct'] else 'ctx' if 'CancellationContext *' in f['ct'] else 'guard'] = f['n']
  w = '%s:%d' % (fn['file'], fn['l'])
  seen = set()
  for n in range(1, 4):
    for ctx in (True, False):
      it = I(F, n, None, None, E)
      st = absint.State()
      g = ('G', tlv[0])
      st.heap[g + (fl['ctx'],)] = Ptr(CTX) if ctx else Ptr(None)
      st.heap[g + (fl['flag'],)] = Ptr(CTX + (flag,)) if ctx else Ptr(('G', 'stub'))
      st.heap[g + (fl['guard'],)] = Ptr(('g',)) if ctx else Ptr(None)
      st.heap[CTX + ('$',)] = Const('ctx')
      st.heap[('ctx',)] = ctx
      st.heap[('must-test',)] = False
      st.heap[('expect',)] = Aff((), 0)
      st.heap[EC + (E['status'],)] = OK
      st.heap[EC + (E['signal'],)] = False
      st.heap[EC + (E['jump'],)] = Aff((), 0)
      st.heap[('span',)] = Const('span')
      outs = it.call_fn(fn, None, [Ref(('span',)), Ptr(EC), Const('frame')], st)
      c.count('abstract_executions')
      c.need(outs, 'the evaluation loop')
      site = sorted(x for x in it.inlined if 'bound_operators' in x and 'Impl' in x)
      ws = (site or [w])[0].split(' ')[0]
      ends = set()
      for v, s in outs:
        case = 'running %d operators %s' % (n, 'with a cancellation context' if ctx else 'without a cancellation context')
        b = [e[1] for e in s.log if e[0] == 'BAD'] + [e[0] for e in s.log if e[0] == 'null-deref']
        stat = s.heap.get(EC + (E['status'],))
        stop = s.heap.get(('stopped',))
        exp = s.heap.get(('expect',)).const()
        if s.heap.get(('must-test',)) and not (stop and stop.v == 'an operator failed'):
          b.append('the cancellation context is not tested after the last operator')
        if stop is None:
          if exp != n:
            b.append('returns before operator %s of %d ran' % (exp, n))
          if stat != OK:
            b.append('reports %s though every operator succeeded' % (stat,))
        elif stop.v == 'an operator failed' and not s.heap.get(('cancelled',)):
          if stat != Const('ERR'):
            b.append('the status of the failed operator becomes %s' % (stat,))
          if s.heap.get(EC + (E['signal'],)) is not True:
            b.append('the signal of the failed operator is lost')
        elif s.heap.get(('cancelled',)) and stat not in (Const('CANCELLED'), Const('ERR')):
          b.append('a cancelled evaluation ends with status %s' % (stat,))
        elif s.heap.get(('cancelled',)) and s.heap.get(EC + (E['signal'],)) is not True:
          b.append('a cancelled evaluation ends without a signal')
        if stop is not None and stop.v == 'an operator failed' and v != s.heap.get(('last',)):
          b.append('the operator reported as the last one is %s instead of %s' % (v, s.heap.get(('last',))))
        ends.add(stop.v if stop else 'end')
        for x in b:
          if x not in seen:
            seen.add(x)
            c.bad(ws, '%s: %s' % (case, x), 'loop|' + x[:50])
        if not b:
          c.ok(case)
      if ctx and 'the context was cancelled' not in ends:
        c.bad(ws, 'running %d operators with a cancellation context: the context is never tested' % n, 'never-tested')
