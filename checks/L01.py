"""Data shared between threads is only accessed under its mutex."""
import os
import re
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import facts
import flow
import locks
import report
from locks import Held, Path, held, is_atomic, is_mutex
from tree import CALLS, callee_name, callee_obj, callee_short, children, parents, pp, short, strip, walk, walk_fn

RULE = ('lock-set dataflow: every access to a member guarded by a mutex (annotated, or written under the mutex of its class) happens with that mutex of that object held, '
        'exclusively for a write; a helper that relies on its caller\'s lock is only called with it; references into guarded data do not outlive the lock')

# (class, member) that needs no lock, with the reason
EXCEPTIONS = {}

# containers whose elements stay where they are when others are added
STABLE = re.compile(r'(node_hash_map|node_hash_set|std::map<|std::set<|std::deque|std::list|unordered_)')


def mutex_of(r):
  return [f['n'] for f in r['fields'] if is_mutex(f['t']) or is_mutex(f['ct'])]


class Lambda(Exception):
  pass


MUTATES = {'emplace', 'emplace_back', 'push_back', 'pop_back', 'push_front', 'pop_front', 'insert', 'insert_or_assign', 'try_emplace', 'erase', 'clear',
           'resize', 'assign', 'reset', 'store', 'append', 'swap', 'merge', 'extract'}


def is_write(n, par, definite=False):
  """How the member expression n is used: 'w', 'r', or None when only its address is formed to lock/ignore."""
  x = n
  while True:
    p = par.get(id(x))
    if p is None:
      return 'r'
    k = p['k']
    if k == 'Cast':
      if p.get('ck') == 'LValueToRValue':
        return 'r'
      x = p
      continue
    if k in ('Mem', 'DMem') and p.get('b') is x:
      x = p
      # a method name: decided at the call
      continue
    if k == 'Sub' and p.get('b') is x:
      x = p
      continue
    if k == 'Un':
      if p['op'] in ('++', '--'):
        return 'w'
      if p['op'] in ('&', '*'):
        x = p
        continue
      return 'r'
    if k == 'Bin':
      if p['op'].endswith('=') and p['op'] not in ('==', '!=', '<=', '>='):
        return 'w' if p['x'] is x else 'r'
      return 'r'
    if k == 'OCall':
      a = p['a']
      if p['op'] in ('=', '+=', '-=', '|=', '&=', '++', '--') and a[0] is x:
        return 'w'
      if p['op'] in ('->', '*', '[]') and a[0] is x:
        if p['op'] == '[]' and 'map' in (x.get('t') or ''):
          return 'w'
        x = p
        continue
      return 'r'
    if k in ('MCall', 'Call'):
      o = callee_obj(p)
      if o is x or p.get('ce') is x:
        if definite:
          return 'w' if callee_short(p) in MUTATES else 'r'
        return 'r' if callee_short(p) in locks.READS else 'w'
      m = callee_short(p)
      if m in ('exchange', 'swap') and p['a'] and (p['a'][0] is x or m == 'swap'):
        return 'w'
      if m in ('move',):
        return 'w'
      return 'r'
    if k in ('Ctor', 'DCtor', 'Init', 'Return', 'Decl', 'Var', 'RangeFor', 'Cond', 'Expr'):
      return 'r'
    return 'r'


class L(Held):

  def __init__(self, fn, guarded, byname, par, initial=()):
    Held.__init__(self, fn, initial)
    self.guarded = guarded
    self.byname = byname
    self.par = par
    self.acc = []        # (node, record, field, base path, held set)
    self.calls = []      # (node, object path, held set)
    self.statics = {}
    self.derived = {}    # iterators and references into a guarded member

  def declare(self, v, s):
    i = v.get('i')
    t = (v.get('t') or '').rstrip()
    if i is not None:
      g = None
      if 'iterator' in t:
        for n in walk(i):
          if n['k'] in ('Mem', 'DMem'):
            q = n.get('mq') if n.get('mq') in self.guarded else self.byname.get(n['m']) if n['k'] == 'DMem' else None
            if q:
              b = n.get('b')
              g = (q, 'this' if b is None or b['k'] == 'This' else self.p.of(b))
      elif t.endswith('&') or (t.endswith('*') and strip(i)['k'] == 'Un' and strip(i)['op'] == '&'):
        q = esc(i, self, self.guarded, self.guarded, 'T &', None)
        if q:
          for n in walk(i):
            if n['k'] in ('Mem', 'DMem') and n.get('mq') == q:
              b = n.get('b')
              g = (q, 'this' if b is None or b['k'] == 'This' else self.p.of(b))
      if g:
        self.derived[v['d']] = g
    return Held.declare(self, v, s)

  def at(self, n, s):
    k = n['k']
    if k in ('Mem', 'DMem'):
      q = n.get('mq')
      g = None
      if q and q in self.guarded:
        g = q
      elif k == 'DMem' and n['m'] in self.byname:
        g = self.byname[n['m']]
      if g:
        b = n.get('b')
        bp = 'this' if b is None or b['k'] == 'This' else self.p.of(b)
        self.acc.append((n, g, bp, held(s), b))
    elif k == 'Ref' and n.get('d') in self.derived:
      g, bp = self.derived[n['d']]
      self.acc.append((n, g, bp, held(s), None))
    elif k == 'Ref' and n.get('d') in self.statics:
      self.acc.append((n, self.statics[n['d']], '', held(s), None))
    if k in CALLS:
      o = callee_obj(n)
      op = 'this' if (o is None or o['k'] == 'This') else self.p.of(o)
      self.calls.append((n, op, held(s)))


def run(c):
  F = facts.load(facts.ALL)
  recs = [r for rs in F.records.values() for r in rs if r['kind'] != 'inst' and r.get('fields')]
  owners = {}
  for r in recs:
    m = mutex_of(r)
    if m and not r['file'].endswith('_test.cc') and '/testing/' not in r['file']:
      owners[r['n']] = (r, m)
  c.need(len(owners) >= 20, 'classes with a mutex')
  byname_all = {}
  fields = {}
  for n, (r, m) in owners.items():
    for f in r['fields']:
      if f['n'] in m or is_atomic(f['t']) or is_atomic(f['ct']):
        continue
      fields['%s::%s' % (n, f['n'])] = (r, f, locks.annotation(r['file'], f['l']))
      byname_all.setdefault(f['n'], []).append('%s::%s' % (n, f['n']))
  fns = []
  for f in F.functions:
    if not f.get('body') or '/testing/' in f['file']:
      continue
    fns.append(f)
  # functions that mention such a class at all
  results = {}

  def analyse(f):
    # dependent accesses resolve by name within the class family
    byname = {}
    for nm, qs in byname_all.items():
      cls = f['n'].rsplit('::', 1)[0]
      near = [q for q in qs if fields[q][0]['file'] == f['file'] and (q.startswith(cls + '::') or cls.startswith(q.rsplit('::', 1)[0]))]
      if len(near) == 1:
        byname[nm] = near[0]
    par = {}
    roots = [f['body']] + [i['e'] for i in f.get('inits') or [] if i.get('e')]
    for r in roots:
      par.update(parents(r))
    x = L(f, fields, byname, par)
    # function-local statics next to a static mutex
    sv = [v for n in walk(f['body']) if n['k'] == 'Decl' for v in n['v'] if v.get('sl')]
    sm = [v for v in sv if is_mutex(v.get('t'))]
    if sm:
      for v in sv:
        if v not in sm and not is_atomic(v.get('t')):
          x.statics[v['d']] = 'static:%s:%s:#%s' % (f['n'], v['n'], sm[0]['d'])
    x.entry(f['body'])
    todo, depth = x.lams, 0
    while todo and depth < 5:
      x.lams = []
      for n, s in {id(a): (a, st) for a, st in todo}.values():
        p = par.get(id(n))
        while p is not None and p['k'] in ('Cast', 'Ctor'):
          p = par.get(id(p))
        direct = p is not None and p['k'] in CALLS
        x.st(n.get('body'), {s if direct else frozenset()})
      todo = x.lams
      depth += 1
    return x, par

  names = set(byname_all)
  for f in fns:
    hit = False
    for n in walk_fn(f):
      if n['k'] in ('Mem', 'DMem') and (n.get('mq') in fields or (n['k'] == 'DMem' and n['m'] in names)):
        hit = True
        break
      if n['k'] == 'Decl' and any(v.get('sl') and is_mutex(v.get('t')) for v in n['v']):
        hit = True
        break
    owner = f['n'].rsplit('::', 1)[0]
    if hit or owner in owners:
      try:
        results[id(f)] = (f,) + analyse(f)
      except flow.Explosion:
        c.undecided('%s:%d' % (f['file'], f['l']), f['n'])
  c.count('functions that access classes with a mutex', len(results))

  def special(f):
    """constructors and destructors own the object alone"""
    cls = short(f['n'].rsplit('::', 1)[0])
    m = short(f['n'])
    return m == cls or m.startswith('~')

  # which members are guarded: annotated, or written outside construction
  guarded = {}
  for q, (r, f, ann) in fields.items():
    if ann:
      guarded[q] = ann.rsplit('.', 1)[-1].rsplit('>', 1)[-1]
  for f, x, par in results.values():
    for n, q, bp, h, b in x.acc:
      if q.startswith('static:') or q in guarded:
        continue
      if special(f) and bp == 'this':
        continue
      if bp in x.p.fresh:
        continue
      r, fd, ann = fields[q]
      if fd['t'].startswith('const ') and not fd['t'].rstrip().endswith('*'):
        continue
      if is_write(n, par, definite=True) == 'w':
        ms = mutex_of(r)
        under = [m for m in ms if any(p == '%s.%s' % (bp, m) for p, _ in h)]
        if under or len(ms) == 1:
          guarded[q] = (under or ms)[0]
  c.count('guarded members', len(guarded))
  c.count('annotated members', sum(1 for q in fields if fields[q][2]))

  # accesses
  need = {}      # usr -> {(mutex, mode)} a method needs from its caller
  pend = []
  for f, x, par in results.values():
    for n, q, bp, h, b in x.acc:
      if q.startswith('static:'):
        mtx = q.rsplit(':', 1)[1]
        req = mtx
        mode = 'r'
        what = q.split(':')[-3] if False else pp(n)
      else:
        if q not in guarded:
          continue
        mtx = guarded[q]
        req = None if bp is None else ('%s.%s' % (bp, mtx))
        mode = is_write(n, par)
        what = q
      if special(f) and bp == 'this':
        c.count('accesses by constructors and destructors')
        continue
      if bp in x.p.fresh and bp.count('.') == 0 and not q.startswith('static:'):
        c.count('accesses to objects that are not shared yet')
        continue
      # the declaration that is itself the lock or the static
      ok = any((p == req or (req is None and p and p.endswith('.' + mtx))) and (m == 'w' or mode == 'r') for p, m in h)
      where = '%s:%d' % (f['file'], n['l'])
      if ok:
        c.ok('%s %s %s' % (where, f['n'], what))
        continue
      if (f['n'], q) in EXCEPTIONS:
        c.count('documented exceptions')
        continue
      if bp == 'this' and not q.startswith('static:'):
        pend.append((f, n, q, mtx, mode))
        need.setdefault(f['u'], set()).add((mtx, mode))
      else:
        c.bad(where, '%s %s %s without holding %s' % (f['n'], 'modifies' if mode == 'w' else 'reads', what, mtx), key='%s %s' % (f['n'], what))

  # helpers that rely on the caller's lock
  changed = True
  unheld = {}
  while changed:
    changed = False
    for f, x, par in results.values():
      for n, op, h in x.calls:
        u = n.get('u')
        if u not in need:
          continue
        for mtx, mode in list(need[u]):
          req = None if op is None else '%s.%s' % (op, mtx)
          ok = any(p == req and (m == 'w' or mode == 'r') for p, m in h)
          if ok or (special(f) and op == 'this') or op in x.p.fresh:
            continue
          if op == 'this':
            if (mtx, mode) not in need.setdefault(f['u'], set()):
              need[f['u']].add((mtx, mode))
              changed = True
          else:
            unheld.setdefault(u, (f, n, mtx))
  called, relies = {}, {}
  byu = {}
  for f, x, par in results.values():
    byu[f['u']] = f
    for n, op, h in x.calls:
      if n.get('u') in need:
        called.setdefault(n['u'], []).append((f, n))
        if op == 'this' and not special(f) and f['u'] in need and not any(p and p.startswith('this.') for p, _ in h):
          relies.setdefault(n['u'], set()).add(f['u'])

  def access(u):
    r = F.rec(byu[u]['n'].rsplit('::', 1)[0]) if u in byu else None
    for m in (r['meths'] if r else []):
      if m['u'] == u:
        return m.get('acc')
    return 0

  # part of the interface, never called with the lock, or called by such a method
  exposed = {u: ('' if u not in unheld else ' (called from %s:%d without it)' % (unheld[u][0]['file'], unheld[u][1]['l']))
             for u in need if u in unheld or not called.get(u) or access(u) == 0}
  changed = True
  while changed:
    changed = False
    for u in need:
      if u not in exposed:
        for v in relies.get(u, ()):
          if v in exposed:
            exposed[u] = ' (called from %s without it)' % byu[v]['n']
            changed = True
            break
  for f, n, q, mtx, mode in pend:
    where = '%s:%d' % (f['file'], n['l'])
    if f['u'] in exposed:
      c.bad(where, '%s %s %s without holding %s%s' % (f['n'], 'modifies' if mode == 'w' else 'reads', q, mtx, exposed[f['u']]), key='%s %s' % (f['n'], q))
    else:
      c.ok('%s %s under the lock of its callers' % (where, f['n']))
  c.count('accesses that rely on the lock of the caller', len(pend))

  # references that outlive the lock
  for f, x, par in results.values():
    rt = (f.get('crt') or f.get('rt') or '').strip()
    if not rt.endswith(('&', '*')) and not re.search(r'string_view$|Span<[^<>]*>$', rt):
      continue
    for n in walk(f['body']):
      if n['k'] != 'Return' or n.get('e') is None:
        continue
      e = strip(n['e'])
      c.count('returns of references and pointers examined')
      q = esc(e, x, guarded, fields, rt, F)
      if q:
        c.bad('%s:%d' % (f['file'], n['l']), '%s returns %s, a reference into %s that outlives the lock' % (f['n'], pp(e)[:60], q), key='%s escape' % f['n'])
  c.need(c.counts.get('guarded members', 0) >= 30, 'guarded members')


def esc(e, x, guarded, fields, rt, F, depth=0):
  """The guarded member (of a container that may move its elements) that e refers into."""
  e = strip(e)
  if e is None or depth > 6:
    return None
  k = e['k']
  ptr = rt.endswith('*')
  if k in ('Mem', 'DMem'):
    q = e.get('mq')
    if q in guarded:
      t = fields[q][1]['ct']
      if ptr:
        return None      # the pointer value itself is copied
      return q if not STABLE.search(t) else None
    return esc(e.get('b'), x, guarded, fields, rt, F, depth + 1) if not ptr and e.get('b') else None
  if k == 'Un' and e['op'] == '&':
    return esc(e['e'], x, guarded, fields, 'T &', F, depth + 1)
  if k == 'Un' and e['op'] == '*':
    return None if 'ptr' in (e['e'].get('t') or '') else esc(e['e'], x, guarded, fields, rt, F, depth + 1)
  if k == 'OCall' and e['op'] in ('[]', '->', '*'):
    t = strip(e['a'][0]).get('t') or ''
    if 'ptr<' in t:
      return None
    return esc(e['a'][0], x, guarded, fields, 'T &', F, depth + 1) if not ptr else None
  if k == 'Sub':
    return esc(e['b'], x, guarded, fields, rt, F, depth + 1) if not ptr else None
  if k in CALLS:
    o = callee_obj(e)
    if o is not None and callee_short(e) in ('at', 'find', 'front', 'back', 'begin', 'data', 'emplace', 'insert', 'try_emplace'):
      return esc(o, x, guarded, fields, 'T &', F, depth + 1) if not ptr or callee_short(e) == 'data' else None
    return None
  if k == 'Ref' and e.get('d') is not None and not ptr:
    for n in walk(x.fn['body']):
      if n['k'] == 'Decl':
        for v in n['v']:
          if v.get('d') == e['d'] and v.get('i') is not None:
            t = v.get('t') or ''
            if t.rstrip().endswith('&') or 'iterator' in t:
              return esc(v['i'], x, guarded, fields, 'T &', F, depth + 1)
  return None


report.main('L01', RULE, run)
