"""Evaluation stops at the first error, and the error is what the caller gets."""
import os
import re
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import facts
import flow
import guard
import report
from flow import Flow
from tree import CALLS, callee_name, callee_obj, callee_short, pp, strip, walk, walk_fn

RULE = ('typestate of every evaluation context in every function: after a call that can leave an error in the context (an operator, a '
        'bound expression, set_status) the context is examined before another operator runs with it, before the function that owns it '
        'reports success and before it is forgotten; the signal flag the evaluation loop tests is raised by every error and jump')

EXCEPTIONS = {
    ('arolla::expr::eval_internal::MapBoundOperator::Run', 'InitializeLiterals'):
        'runs once per scratch frame; copying the literals of a compiled scalar operator does not fail',
}
RUN = ('Run', 'Execute', 'InitializeLiterals', 'RunBoundOperators', 'RunBoundOperatorsImpl')


def is_ctx(t):
  t = guard.norm_type(t).replace('const ', '').replace('arolla::', '').strip()
  return t in ('EvaluationContext', 'EvaluationContext *')


class Ctx(Flow):

  def __init__(self, fn, c):
    self.fn = fn
    self.c = c
    self.g = guard.Guard(fn)
    self.viol = {}
    self.sites = {}
    self.lams = []
    self.owned = {}
    self.quiet = False

  def key(self, e):
    k = self.g.key(e)
    return k[1:] if k and k.startswith('&') else (k[1:] if k and k.startswith('*') else k)

  def get(self, s, k):
    for x in s:
      if x[0] == k:
        return x[1]
    return self.default

  default = 'clean'

  def put(self, s, k, v):
    return frozenset(x for x in s if x[0] != k) | {(k, v)}

  def pre(self, n, S):
    if n['k'] == 'Cond' and n['c'] and strip(n['c'])['k'] == 'Bin' and strip(n['c'])['op'] == '||':
      c = strip(n['c'])
      if strip(c['x'])['k'] == 'Bool' and strip(c['x'])['v']:
        return S   # DCHECK
    return None

  def ctx_arg(self, n):
    for a in n['a']:
      b = strip(a)
      if b['k'] == 'Un' and b['op'] == '&':
        b = strip(b['e'])
      if is_ctx(b.get('t')) and (b['k'] in ('Ref', 'Mem', 'DMem')):
        return self.key(b)
    return None

  def expr(self, n, s):
    if n['k'] not in CALLS:
      return (s,)
    m = callee_short(n)
    o = callee_obj(n)
    if o is not None and is_ctx(strip(o).get('t')):
      k = self.key(o)
      if m == 'set_status' and n['a']:
        st = self.get(s, k)
        self.sites[(n['l'], m)] = 1
        if st != 'clean' and not self.quiet and not any(
            x['k'] in CALLS and callee_short(x) == 'status' and callee_obj(x) is not None and is_ctx(strip(callee_obj(x)).get('t'))
            for x in walk(n['a'][0])):
          self.viol.setdefault((n['l'], m), 'replaces the error of an earlier step by %s' % pp(n['a'][0])[:60])
        if guard.error_expr(n['a'][0]):
          return (self.put(s, k, 'bad'),)
        return (self.put(s, k, 'dirty'),)
      if m == 'ResetSignals':
        if self.get(s, k) != 'clean' and not self.quiet:
          self.viol[(n['l'], m)] = 'clears the evaluation context although it %s an error' % (
              'holds' if self.get(s, k) == 'bad' else 'may hold')
        return (self.put(s, k, 'clean'),)
      return (s,)
    if m in RUN or (n['k'] == 'Call' and n.get('fn') and (n.get('rt') in ('void', 'int64_t')) and False):
      k = self.ctx_arg(n)
      if k is None:
        return (s,)
      rt = n.get('rt') or ''
      if 'Status' in rt:
        return (s,)
      self.sites[(n['l'], m)] = 1
      st = self.get(s, k)
      if st != 'clean' and not self.quiet:
        self.viol.setdefault((n['l'], m), 'runs %s with an evaluation context that %s' % (
            pp(n)[:60], 'already holds an error' if st == 'bad' else 'may hold the error of an earlier step that was not examined'))
      return (self.put(s, k, 'dirty'),)
    return (s,)

  def test(self, c):
    """-> (ctx key, truth that means no error)"""
    c = strip(c)
    if c['k'] in CALLS:
      m = callee_short(c)
      o = callee_obj(c)
      if m == 'ok' and o is not None:
        so = strip(o)
        if so['k'] in CALLS and callee_short(so) == 'status' and callee_obj(so) is not None and is_ctx(strip(callee_obj(so)).get('t')):
          return self.key(callee_obj(so)), True
      if m == 'signal_received' and o is not None and is_ctx(strip(o).get('t')):
        return self.key(o), False
    if c['k'] == 'Un' and c['op'] == '!':
      r = self.test(c['e'])
      return (r[0], not r[1]) if r else None
    if c['k'] in ('Ref', 'MCall') and c.get('t') is not None:
      # the adaptor of a propagation macro over ctx.status()
      r = c if c['k'] == 'Ref' else strip(callee_obj(c)) if callee_obj(c) else None
      if r is not None and r['k'] == 'Ref' and r.get('d') in self.adapt:
        return self.adapt[r['d']], True
      if r is not None and r is c and r.get('d') in self.flags:
        return self.flags[r['d']]
    return None

  def declare(self, v, s):
    t = guard.norm_type(v.get('t'))
    if is_ctx(t) and '*' not in t and not (v.get('t') or '').endswith('&'):
      self.owned['#%s' % v['d']] = v
      return (self.put(s, '#%s' % v['d'], 'clean'),)
    i = v.get('i')
    if i is not None and t.replace('const ', '') == 'bool':
      r = self.test(i)
      if r:
        self.flags[v['d']] = r
        # the condition decides the state on both outcomes
        return tuple(self.put(y, '?%s' % v['d'], tr) for tr in (True, False) for y in self.atom(i, tr, s))
    if i is not None:
      for x in walk(i):
        if x['k'] in CALLS and callee_short(x) == 'status' and callee_obj(x) is not None and is_ctx(strip(callee_obj(x)).get('t')):
          self.adapt[v['d']] = self.key(callee_obj(x))
    return (s,)

  def atom(self, c, truth, s):
    c = strip(c)
    if c['k'] == 'Ref' and c.get('d') in self.flags:
      for x in s:
        if x[0] == '?%s' % c['d'] and x[1] != truth:
          return ()
      return (s,)
    r = self.test(c)
    if not r:
      return (s,)
    k, okv = r
    st = self.get(s, k)
    if truth == okv:
      if st == 'bad':
        return ()
      return (self.put(s, k, 'clean'),)
    if strip(c)['k'] in CALLS and callee_short(strip(c)) == 'signal_received' or 'signal' in pp(c):
      return (self.put(s, k, 'dirty'),)    # a jump or an error
    return (self.put(s, k, 'bad'),)

  def ret(self, n, s):
    e = n.get('e')
    for x in s:
      if x[0] in self.owned and x[1] != 'clean':
        v = self.owned[x[0]]
        ok = e is not None and (guard.error_expr(e) or any(
            y['k'] == 'Ref' and ('#%s' % y.get('d') == x[0] or y.get('d') in self.adapt) for y in walk(e)))
        if not ok and not self.quiet:
          self.viol.setdefault((n['l'], 'return'), 'returns without the error its evaluation context %s may hold' % v['n'])
    return (s,)

  def lam(self, n, s):
    self.lams.append((n, s))
    # a lambda that runs operators with a captured context may have been called from here on
    own = {'#%s' % q.get('d') for q in n.get('p') or []}
    for y in walk(n.get('body')):
      if y['k'] in CALLS and callee_short(y) in RUN and (self.fn['n'], callee_short(y)) not in EXCEPTIONS:
        k = self.ctx_arg(y)
        if k and k not in own:
          s = self.put(s, k, 'dirty')
    return (s,)


def flag_rule(c, F):
  """The flag tested by the evaluation loop is raised by every error and jump."""
  fs = [f for f in F.functions if f['n'] == 'arolla::EvaluationContext::set_status' and f.get('body') and f['p']]
  c.need(fs, 'EvaluationContext::set_status')

  def fld(e, name):
    e = strip(e)
    return e['k'] in ('Mem', 'DMem') and e['m'] == name

  for f in fs:
    stored = raised = False
    for st in f['body']['c']:
      for n in walk(st):
        if n['k'] in ('Bin', 'OCall') and n.get('op') == '=':
          a = (n['x'], n['y']) if n['k'] == 'Bin' else n['a']
          if fld(a[0], 'status_'):
            stored = True
          if fld(a[0], 'signal_received_') and stored:
            leaves, todo = [], [strip(a[1])]
            while todo:
              e = todo.pop()
              if e['k'] == 'Bin' and e['op'] == '||':
                todo += [strip(e['x']), strip(e['y'])]
              else:
                leaves.append(e)
            for e in leaves:
              if e['k'] == 'Bool' and e['v']:
                raised = True
              if e['k'] == 'Un' and e['op'] == '!':
                i = strip(e['e'])
                if i['k'] in CALLS and callee_short(i) == 'ok' and fld(callee_obj(i), 'status_'):
                  raised = True
      if st['k'] == 'If' and stored:
        p = pp(st['cond'])
        if p.replace('(', '').replace(')', '') == '!status_.ok' and any(
            n['k'] == 'Bin' and n['op'] == '=' and fld(n['x'], 'signal_received_') and strip(n['y'])['k'] == 'Bool' and strip(n['y'])['v']
            for n in walk(st['then'])):
          raised = True
    if stored and raised:
      c.ok('set_status raises the signal of every error')
    else:
      c.bad('%s:%d' % (f['file'], f['l']), '%s does not raise the signal flag for every error it stores' % f['n'])
  for f in F.fn('arolla::EvaluationContext::set_requested_jump'):
    good = any(n['k'] == 'Bin' and n['op'] == '=' and fld(n['x'], 'signal_received_') and strip(n['y'])['k'] == 'Bool' and strip(n['y'])['v']
               for n in walk_fn(f))
    if good:
      c.ok('set_requested_jump raises the signal')
    else:
      c.bad('%s:%d' % (f['file'], f['l']), '%s does not raise the signal flag' % f['n'])


def run(c):
  F = facts.load(facts.ALL)
  flag_rule(c, F)
  for f in F.functions:
    b = f.get('body')
    if not b or f['n'].startswith('arolla::EvaluationContext::'):
      continue
    if not any('EvaluationContext' in (n.get('t') or '') for n in walk(b)):
      continue
    c.count('functions with an evaluation context')
    x = Ctx(f, c)
    x.adapt = {}
    x.flags = {}
    try:
      # lambdas first: which locals are captured contexts is known from the body
      x._spill = []
      o = x.st(b, {frozenset()})
      for s in o.fall:
        for k, st in s:
          if k in x.owned and st != 'clean':
            v = x.owned[k]
            x.viol.setdefault((v['l'], 'end'), 'ends without examining the error its evaluation context %s may hold' % v['n'])
      todo = x.lams
      depth = 0
      while todo and depth < 6:
        x.lams = []
        for n, s in {id(a): (a, st) for a, st in todo}.values():
          own = {'#%s' % p.get('d') for p in n.get('p') or [] if p.get('d') is not None}
          # a captured context may have been used by an earlier invocation
          x.default = 'clean'
          caps = set()
          for y in walk(n.get('body')):
            if y['k'] in ('Ref', 'Mem') and is_ctx(y.get('t')):
              k = x.key(y)
              if k and k not in own:
                caps.add(k)
          inner = {'#%s' % v.get('d') for y in walk(n.get('body')) if y['k'] == 'Decl' for v in y['v']}
          for y in walk(n.get('body')):
            if y['k'] == 'Lambda':
              inner |= {'#%s' % p.get('d') for p in y.get('p') or []}
          init = frozenset((k, 'dirty') for k in caps - inner)
          x.st(n.get('body'), {init})
        todo = x.lams
        depth += 1
    except flow.Explosion:
      c.undecided('%s:%d' % (f['file'], f['l']), f['n'] + ': too many paths')
      continue
    for site in sorted(x.sites):
      c.count('calls that can leave an error in the context')
      if site not in x.viol:
        c.ok('%s:%d %s %s' % (f['file'], site[0], f['n'], site[1]))
    for (l, m), what in sorted(x.viol.items()):
      if (f['n'], m) in EXCEPTIONS:
        c.count('documented exceptions')
        continue
      c.bad('%s:%d' % (f['file'], l), '%s %s' % (f['n'], what))
  c.need(c.counts.get('calls that can leave an error in the context', 0) > 40, 'evaluation context uses')


report.main('E03', RULE, run)
