"""No deadlock: locks nest in one order and no callback runs under a lock."""
import os
import re
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import facts
import flow
import locks
import report
from locks import Held, held, is_mutex
from tree import CALLS, callee_name, callee_obj, callee_short, parents, pp, short, strip, walk, walk_fn

RULE = ('lock-set dataflow + call graph: for every call made with a mutex held, the mutexes its callee may take (transitively, through virtual methods and constructors) are added to the nesting order, '
        'which has to be free of cycles; no stored callback is invoked, and no owned object of a caller destroyed, with a mutex held; every explicit lock is released on every path')

# callbacks that run under a lock by design
CALLBACKS = {
    ('arolla::delegating_input_loader_impl::DynamicDelegatingInputLoader::GetDelegateLoader', 'delegate_loader_factory_'):
        'the factory creates another loader; the lock makes sure that it runs once per key',
}
OWNING = re.compile(r'^(const )?(std::|absl::|arolla::)?(shared_ptr<|unique_ptr<|RefcountPtr<|function<|AnyInvocable<|move_only_function<)')
FUNCTION = re.compile(r'(std::function<|AnyInvocable<|FunctionRef<|\(\*\)\(|std::move_only_function<)')


class H(Held):

  def __init__(self, fn, byname):
    Held.__init__(self, fn)
    self.calls = []
    self.acq = []
    self.byname = byname
    self.mid = {}
    self.types = {}
    self.inside = set()
    self.freed = []

  def declare(self, v, s):
    if v.get('d') is not None:
      self.types[v['d']] = v.get('t')
    if held(s) and (OWNING.match(v.get('t') or '') or v.get('t') == 'auto' and v.get('i') is not None and self.member(strip(v['i']))):
      self.inside.add(v['d'])
      i = v.get('i')
      if i is not None and self.member(strip(i)) and not locks.scoped_kind(v.get('t')) and any(
          n['k'] in CALLS and callee_short(n) in ('move', 'exchange') for n in walk(i)):
        uses = sum(1 for n in walk(self.fn['body']) if n['k'] == 'Ref' and n.get('d') == v['d'])
        if not uses:
          self.freed.append((v, 'the old value of ' + pp(strip(i)), [p for p, _ in held(s)]))
    mode = locks.scoped_kind(v.get('t'))
    if mode and v.get('i') is not None:
      for n in walk(v['i']):
        if n['k'] in ('Mem', 'DMem', 'Ref') and (is_mutex(n.get('t')) or n['k'] == 'DMem' and n['m'] in self.byname):
          self.name(n)
          break
    return Held.declare(self, v, s)

  def member(self, e):
    if e['k'] in CALLS and callee_short(e) == 'exchange' and e['a']:
      e = strip(e['a'][0])
    return e['k'] in ('Mem', 'DMem') and OWNING.match(e.get('t') or '') is not None

  def name(self, n):
    p = self.p.of(n)
    if n['k'] == 'Mem':
      self.mid[p] = n['mq']
    elif n['k'] == 'DMem':
      self.mid[p] = self.byname.get(n['m'], '?::' + n['m'])
    else:
      self.mid[p] = '%s::%s' % (self.fn['n'], n['n'])

  def expr(self, n, s):
    if n['k'] in CALLS:
      o = callee_obj(n)
      if o is not None and callee_short(n) in locks.ACQ and is_mutex((strip(o).get('t') or '').replace('const ', '')):
        self.name(strip(o))
    return Held.expr(self, n, s)

  def on_acquire(self, n, path, mode, s):
    self.acq.append((n, path, [p for p, _ in held(s)]))

  def at(self, n, s):
    hs = [p for p, _ in held(s)]
    if hs:
      a = None
      if n['k'] == 'OCall' and n['op'] == '=':
        a = strip(n['a'][0])
      elif n['k'] == 'Bin' and n['op'] == '=':
        a = strip(n['x'])
      elif n['k'] in CALLS and callee_short(n) in ('reset', 'swap') and callee_obj(n) is not None:
        a = strip(callee_obj(n))
        if callee_short(n) == 'swap':
          b = strip(n['a'][0]) if n['a'] else None
          pair = [x for x in (a, b) if x is not None]
          a = next((x for x in pair if self.member(x)), None)
          if a is not None and not any(x['k'] == 'Ref' and x.get('d') in self.inside for x in pair):
            a = None
      if a is not None and self.member(a) and (a.get('b') is None or a['b']['k'] == 'This'):
        self.freed.append((n, 'the old value of ' + pp(a), hs))
      if n['k'] == 'Delete':
        self.freed.append((n, pp(n.get('e')) + ' (deletes)', hs))
    if n['k'] in CALLS or n['k'] == 'Ctor':
      self.calls.append((n, [p for p, _ in held(s)]))


def run(c):
  F = facts.load(facts.ALL)
  byname = {}
  for rs in F.records.values():
    for r in rs:
      for f in r.get('fields') or []:
        if r['kind'] != 'inst' and is_mutex(f['t']):
          byname.setdefault(f['n'], []).append(r)
  # class hierarchy, for virtual calls
  derived = {}
  for n, rs in F.records.items():
    for r in rs:
      for b in r.get('bases') or []:
        derived.setdefault(re.sub(r'<.*', '', b), set()).add(n)
        derived.setdefault(short(re.sub(r'<.*', '', b)), set()).add(n)

  def overriders(cls, m, seen=None):
    seen = seen if seen is not None else set()
    out = []
    for d in derived.get(cls, set()) | derived.get(short(cls), set()):
      if d in seen:
        continue
      seen.add(d)
      out += [f for f in F.fn('%s::%s' % (d, m))]
      out += overriders(d, m, seen)
    return out

  info = {}
  for f in F.functions:
    if not f.get('body') or '/testing/' in f['file']:
      continue
    uses = any(n['k'] == 'Decl' and any(locks.scoped_kind(v.get('t')) for v in n['v']) or
               (n['k'] in CALLS and callee_short(n) in locks.ACQ) for n in walk(f['body']))
    if uses:
      bn = {}
      for k, rs in byname.items():
        near = [r for r in rs if r['file'] == f['file']]
        if len(near) == 1:
          bn[k] = near[0]['n'] + '::' + k
      x = H(f, bn)
      try:
        end = x.entry(f['body'])
      except flow.Explosion:
        c.undecided('%s:%d' % (f['file'], f['l']), f['n'])
        continue
      todo, depth = x.lams, 0
      par = parents(f['body'])
      for s in end:
        for p, m in held(s):
          c.bad('%s:%d' % (f['file'], f['l']), '%s ends with %s still locked on some path' % (f['n'], x.mid.get(p, p)), key=f['n'] + ' unreleased')
      while todo and depth < 5:
        x.lams = []
        for n, s in {id(a): (a, st) for a, st in todo}.values():
          p = par.get(id(n))
          while p is not None and p['k'] in ('Cast', 'Ctor') and p['k'] != 'Init':
            p = par.get(id(p))
          now = p is not None and p['k'] in CALLS      # handed to a call; otherwise kept for later
          x.st(n.get('body'), {s if now else frozenset()})
        todo = x.lams
        depth += 1
      info[id(f)] = (f, x)

  c.count('functions that take a lock', len(info))
  c.need(len(info) >= 50, 'functions that take a lock')

  def ctors(t):
    t = re.sub(r'(const |class |struct )', '', t or '')
    m = re.search(r'(?:unique_ptr|shared_ptr|RefcountPtr|NoDestructor)<\s*([\w:]+)', t)
    n = m.group(1) if m else re.sub(r'<.*', '', t).strip(' &*')
    return [f for q in ({n} | ({'arolla::' + n} if not n.startswith('arolla::') else set())) for f in F.fn('%s::%s' % (q, short(q)))]

  def targets(n, f):
    if n['k'] == 'Ctor':
      if n.get('copy') or n.get('move'):
        return []
      g = F.callee(n, f)
      return [g] if g else []
    out = []
    g = F.callee(n, f)
    if g:
      out.append(g)
    m = callee_short(n)
    if m in ('make_unique', 'make_shared', 'WrapUnique'):
      out += ctors(n.get('rt') or n.get('t'))
    o = callee_obj(n)
    if o is not None and n.get('fn'):
      out += overriders(n['fn'].rsplit('::', 1)[0], m)
    return out

  direct = {}
  for f, x in info.values():
    direct[id(f)] = {x.mid.get(p, p) for _, p, _ in x.acq}
  trans = {}

  def acquires(f, stack):
    k = id(f)
    if k in trans:
      return trans[k]
    if k in stack:
      return {}
    stack.add(k)
    res = {m: [f['n']] for m in direct.get(k, ())}
    for n in walk_fn(f):
      if n['k'] in CALLS or n['k'] == 'Ctor':
        for g in targets(n, f):
          for m, via in acquires(g, stack).items():
            if m not in res:
              res[m] = [f['n']] + via
    stack.discard(k)
    if not stack:
      trans[k] = res
    return res

  order = {}
  for f, x in info.values():
    for n, path, hs in x.acq:
      m = x.mid.get(path, path)
      c.ok('%s:%d %s takes %s' % (f['file'], n['l'], f['n'], m))
      for h in hs:
        hm = x.mid.get(h, h)
        if h == path:
          c.bad('%s:%d' % (f['file'], n['l']), '%s takes %s although it already holds it' % (f['n'], m), key='%s %s twice' % (f['n'], m))
        order.setdefault((hm, m), ('%s:%d' % (f['file'], n['l']), [f['n']]))
    for n, what, hs in x.freed:
      c.bad('%s:%d' % (f['file'], n['l']), '%s destroys %s while it holds %s' % (f['n'], what, ', '.join(x.mid.get(h, str(h)) for h in hs)), key='%s frees %s' % (f['n'], what))
    for n, hs in x.calls:
      if not hs:
        continue
      c.count('calls made with a lock held')
      # callbacks
      cb = None
      if n['k'] == 'OCall' and n['op'] == '()':
        cb = strip(n['a'][0])
      elif n['k'] == 'Call' and n.get('ce') is not None and not n.get('fn'):
        ce = strip(n['ce'])
        if ce['k'] in ('Mem', 'Ref') and FUNCTION.search(ce.get('t') or '') or ce['k'] in ('Mem', 'DMem') and ce.get('field'):
          cb = ce
      if cb is not None and cb['k'] in ('Mem', 'DMem', 'Ref', 'Sub', 'OCall', 'MCall', 'Call'):
        t = cb.get('t') or ''
        if FUNCTION.search(t) or cb['k'] == 'Mem' and 'lambda' not in t and not F.rec(re.sub(r'^const ', '', t)):
          nm = cb.get('m') or cb.get('n') or pp(cb)
          if (f['n'], nm) in CALLBACKS:
            c.count('documented callbacks under a lock')
          else:
            c.bad('%s:%d' % (f['file'], n['l']), '%s runs the callback %s while it holds %s' % (f['n'], pp(cb), ', '.join(x.mid.get(h, str(h)) for h in hs)), key='%s %s' % (f['n'], nm))
            continue
      for g in targets(n, f):
        for m, via in acquires(g, set()).items():
          for h in hs:
            hm = x.mid.get(h, h)
            order.setdefault((hm, m), ('%s:%d' % (f['file'], n['l']), [f['n']] + via))
      c.ok('%s:%d %s' % (f['file'], n['l'], pp(n)[:60]))
  c.count('nestings of two locks', len(order))
  succ = {}
  for a, b in order:
    succ.setdefault(a, set()).add(b)

  def reach(a, b):
    seen, todo = set(), [a]
    while todo:
      y = todo.pop()
      if y == b:
        return True
      if y not in seen:
        seen.add(y)
        todo += succ.get(y, ())
    return False

  for (a, b), (where, via) in sorted(order.items(), key=lambda z: str(z)):
    if reach(b, a):
      c.bad(where, '%s takes %s while it holds %s, which closes a cycle of lock acquisitions (through %s)' % (via[0], b, a, ' -> '.join(via[1:5])), key='%s after %s' % (b, a))
    else:
      c.ok('%s before %s' % (a, b))


report.main('L02', RULE, run)
