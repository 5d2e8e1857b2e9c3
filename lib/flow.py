"""A generic, path-sensitive forward dataflow over structured syntax trees.

States are immutable values chosen by the client; the engine carries *sets* of
states (a disjunctive domain), so a property decided on it holds on every path
of the function, with loops taken to a fixpoint.
"""
from tree import children


class Explosion(Exception):
  pass


class Out:
  __slots__ = ('fall', 'brk', 'cont', 'ret')

  def __init__(self, fall=(), brk=(), cont=(), ret=()):
    self.fall = set(fall)
    self.brk = set(brk)
    self.cont = set(cont)
    self.ret = set(ret)


class Flow:
  LIMIT = 4000

  # ---- client hooks --------------------------------------------------------
  def expr(self, n, s):
    """Effect of `n` after its operands were evaluated. -> iterable of states."""
    return (s,)

  def pre(self, n, s):
    """Hook before operands of n are evaluated; return False to skip default."""
    return None

  def atom(self, c, truth, s):
    """Refines s with condition c == truth. -> iterable of states."""
    return (s,)

  def declare(self, v, s):
    return (s,)

  def scope_end(self, vs, s):
    """vs: variables (Var nodes) going out of scope, in declaration order."""
    return (s,)

  def ret(self, n, s):
    return (s,)

  def lam(self, n, s):
    return (s,)

  # ---- engine --------------------------------------------------------------
  def _chk(self, S):
    if len(S) > self.LIMIT:
      raise Explosion(len(S))
    return S

  def map(self, f, n, S):
    out = set()
    for s in S:
      out.update(f(n, s))
    return self._chk(out)

  def ev(self, n, S):
    """Evaluates expression n from states S."""
    if n is None or not S:
      return S
    k = n['k']
    if k == 'Bin' and n['op'] in ('&&', '||'):
      t, f = self.cond(n, S)
      return t | f
    if k == 'Cond':
      p = self.pre(n, S)
      if p is not None:
        return p
      t, f = self.cond(n['c'], S)
      r = self.ev(n['x'], t) | self.ev(n['y'], f)
      return self.map(self.expr, n, r)
    if k == 'Lambda':
      for c in n['caps']:
        if isinstance(c.get('init'), dict):
          S = self.ev(c['init'], S)
      return self.map(self.lam, n, S)
    if k == 'StmtExpr':
      o = self.st(n['body'], S)
      self._spill.append(o)
      return o.fall
    p = self.pre(n, S)
    if p is not None:
      return p
    if k == 'Bin' and n['op'] in ('=', '+=', '-=', '*=', '/=', '%=', '|=', '&=', '^=', '<<=', '>>='):
      S = self.ev(n['y'], S)
      S = self.ev(n['x'], S)
    else:
      for c in children(n):
        S = self.ev(c, S)
    S = self.map(self.expr, n, S)
    if n.get('noreturn'):
      return set()
    return S

  def cond(self, n, S):
    """-> (states where n is true, states where n is false)."""
    if n is None:
      return set(S), set()
    k = n['k']
    if k == 'Bin' and n['op'] == '&&':
      t, f = self.cond(n['x'], S)
      t2, f2 = self.cond(n['y'], t)
      return t2, f | f2
    if k == 'Bin' and n['op'] == '||':
      t, f = self.cond(n['x'], S)
      t2, f2 = self.cond(n['y'], f)
      return t | t2, f2
    if k == 'Un' and n['op'] == '!':
      t, f = self.cond(n['e'], S)
      return f, t
    if k == 'Bool':
      return (set(S), set()) if n['v'] else (set(), set(S))
    if k == 'Call' and n.get('fn') == '__builtin_expect' or (k == 'Cast' and n.get('ck') in ('IntegralCast', 'IntegralToBoolean') and n['e']['k'] in ('Call', 'Cast', 'Bin')):
      inner = n['a'][0] if k == 'Call' else n['e']
      return self.cond(inner, S)
    if k == 'Trait' and 'val' in n:
      return (set(S), set()) if n['val'] else (set(), set(S))
    S = self.ev(n, S)
    t, f = set(), set()
    for s in S:
      t.update(self.atom(n, True, s))
      f.update(self.atom(n, False, s))
    return self._chk(t), self._chk(f)

  def decl(self, v, S):
    S = self.ev(v.get('i'), S)
    return self.map(self.declare, v, S)

  def _close(self, vs, o):
    if vs:
      for a in ('fall', 'brk', 'cont', 'ret'):
        S = getattr(o, a)
        if S:
          setattr(o, a, self.map(self.scope_end, vs, S))
    return o

  def st(self, n, S):
    if n is None or not S:
      return Out(fall=S)
    k = n['k']
    self._spill = getattr(self, '_spill', [])
    m = getattr(self, '_st_' + k, None)
    mark = len(self._spill)
    if m:
      o = m(n, S)
    else:
      o = Out(fall=self.ev(n, S))
    while len(self._spill) > mark:
      x = self._spill.pop()
      o.ret |= x.ret
      o.brk |= x.brk
      o.cont |= x.cont
    return o

  def _st_Block(self, n, S):
    o = Out()
    vs = []
    cur = set(S)
    # variables must be closed on exits taken after their declaration; closing
    # the ones not yet declared is harmless for clients (they look them up).
    for c in n['c']:
      if not cur:
        # labels/cases inside a dead region are handled by Switch
        break
      x = self.st(c, cur)
      o.brk |= x.brk
      o.cont |= x.cont
      o.ret |= x.ret
      cur = x.fall
      if c['k'] == 'Decl':
        vs.extend(c['v'])
    o.fall = cur
    return self._close(vs, o)

  def _st_Decl(self, n, S):
    for v in n['v']:
      S = self.decl(v, S)
    return Out(fall=S)

  def _st_If(self, n, S):
    vs = []
    extra = Out()
    if n.get('init'):
      x = self.st(n['init'], S)
      S = x.fall
      if n['init']['k'] == 'Decl':
        vs += n['init']['v']
    if n.get('cv'):
      S = self.decl(n['cv'], S)
      vs.append(n['cv'])
    if n.get('cx') and n['cond'] and n['cond'].get('k') in ('Trait',) and 'val' not in n['cond']:
      t, f = set(S), set(S)
    else:
      t, f = self.cond(n['cond'], S)
    a = self.st(n['then'], t)
    b = self.st(n.get('else'), f)
    return self._close(vs, Out(a.fall | b.fall, a.brk | b.brk, a.cont | b.cont, a.ret | b.ret))

  def _loop(self, S, cond, cv, body, inc, pre_body=None, do=False):
    ret = set()
    exit_ = set()
    seen = set()
    work = set(S)
    rounds = 0
    first = True
    while work:
      rounds += 1
      if rounds > 200:
        raise Explosion('loop')
      cur = work
      if not (do and first):
        if cv:
          cur = self.decl(cv, cur)
        t, f = self.cond(cond, cur) if cond is not None else (set(cur), set())
        exit_ |= f
      else:
        t = cur
      first = False
      if pre_body:
        t2 = pre_body(t)
      else:
        t2 = t
      b = self.st(body, t2)
      if cv:
        b = self._close([cv], b)
      ret |= b.ret
      exit_ |= b.brk
      nxt = b.fall | b.cont
      if inc is not None:
        nxt = self.ev(inc, nxt)
      work = nxt - seen
      seen |= nxt
      self._chk(seen)
    return Out(fall=exit_, ret=ret)

  def _st_For(self, n, S):
    vs = []
    if n.get('init'):
      x = self.st(n['init'], S)
      S = x.fall
      if n['init']['k'] == 'Decl':
        vs = n['init']['v']
    o = self._loop(S, n.get('cond'), n.get('cv'), n['body'], n.get('inc'))
    return self._close(vs, o)

  def _st_While(self, n, S):
    return self._loop(S, n['cond'], n.get('cv'), n['body'], None)

  def _st_Do(self, n, S):
    return self._loop(S, n['cond'], None, n['body'], None, do=True)

  def range_enter(self, n, s):
    """Effect of taking one more element in a range-for."""
    return (s,)

  def _st_RangeFor(self, n, S):
    if n.get('init'):
      S = self.st(n['init'], S).fall
    S = self.ev(n['range'], S)
    ret, exit_, seen = set(), set(S), set()
    work = set(S)
    while work:
      t = self.map(self.range_enter, n, work)
      t = self.map(self.declare, {**n['var'], 'i': None}, t)
      b = self._close([n['var']], self.st(n['body'], t))
      ret |= b.ret
      exit_ |= b.brk
      nxt = b.fall | b.cont
      exit_ |= nxt
      work = nxt - seen
      seen |= nxt
      self._chk(seen)
    return Out(fall=exit_, ret=ret)

  def case(self, sw, labels, s):
    """Refine s with "switch value is one of labels" (None: default)."""
    return (s,)

  def _st_Switch(self, n, S):
    vs = []
    if n.get('init'):
      S = self.st(n['init'], S).fall
      if n['init']['k'] == 'Decl':
        vs += n['init']['v']
    if n.get('cv'):
      S = self.decl(n['cv'], S)
      vs.append(n['cv'])
    S = self.ev(n['cond'], S)
    o = Out()
    cur = set()
    has_default = False
    body = n['body']
    stmts = body['c'] if body and body['k'] == 'Block' else ([body] if body else [])
    all_labels = []
    flat = []
    for c in stmts:
      labels = []
      while c and c['k'] in ('Case', 'Default'):
        labels.append(c.get('lhs') if c['k'] == 'Case' else None)
        c = c.get('sub')
      flat.append((labels, c))
      all_labels += [l for l in labels if l is not None]
      if None in labels:
        has_default = True
    for labels, c in flat:
      if labels:
        for s in S:
          cur |= set(self.case(n, labels, s))
      if not cur:
        continue
      x = self.st(c, cur)
      o.fall |= x.brk
      o.cont |= x.cont
      o.ret |= x.ret
      cur = x.fall
    o.fall |= cur
    if not has_default:
      for s in S:
        o.fall |= set(self.case(n, [None], s))
    self._switch_labels = all_labels
    return self._close(vs, o)

  def _st_Case(self, n, S):
    return self.st(n.get('sub'), S)

  def _st_Default(self, n, S):
    return self.st(n.get('sub'), S)

  def _st_Return(self, n, S):
    S = self.ev(n.get('e'), S)
    return Out(ret=self.map(self.ret, n, S))

  def _st_Break(self, n, S):
    return Out(brk=S)

  def _st_Continue(self, n, S):
    return Out(cont=S)

  def _st_Null(self, n, S):
    return Out(fall=S)

  def _st_Label(self, n, S):
    return self.st(n.get('sub'), S)

  def _st_Try(self, n, S):
    o = self.st(n['body'], S)
    for h in n['h']:
      x = self.st(h['body'], set(S) | o.fall)
      o.fall |= x.fall
      o.ret |= x.ret
      o.brk |= x.brk
      o.cont |= x.cont
    return o

  def run(self, body, init):
    """-> set of states at function exit (fallthrough and returns)."""
    self._spill = []
    o = self.st(body, set(init))
    return o.fall | o.ret
