"""Registries never replace or lose an entry, whatever the order of registrations."""
import os
import re
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import facts
import flow
import guard
import locks
import report
from locks import Held, held, is_mutex
from tree import CALLS, callee_name, callee_obj, callee_short, parents, pp, short, strip, walk, walk_fn

RULE = ('typestate of the guarded maps of every registry: an entry is written only when, in the same critical section, it was seen to be absent (or by an insertion that '
        'keeps an existing entry); a registration whose key is taken returns an error; an interning lookup returns the entry of the map; entries are erased only where removal is the documented purpose')

# (function, member): replaces or removes entries by design
BY_DESIGN = {
    ('arolla::serialization_codecs::ValueDecoderRegistry::RegisterValueDecoder', 'registry_'): 'a codec may be replaced (used by tests and by the Python codec)',
    ('arolla::expr::OpReprRegistry::Set', 'registry_'): 'sets, replaces or removes the representation of an operator',
    ('arolla::LabeledQTypeReprRegistry::Set', 'registry_'): 'sets or replaces the representation of a label',
    ('arolla::OptionalQTypeMaps::Register', 'to_optional_'): 'called once per type by the static registration of optional types',
    ('arolla::ThreadLocal::set', 'items_'): 'not a registry: the value of the calling thread',
    ('arolla::expr::ExprOperatorRegistry::UnsafeUnregister', 'registered_operators_'): 'documented removal',
    ('arolla::expr::ExprOperatorRegistry::UnsafeUnregister', 'operator_implementation'): 'documented removal',
}
MAPS = re.compile(r'(map|set)<')
KEEPS = ('emplace', 'try_emplace', 'insert')


class R(Held):
  """Adds ('no', map, lock generation): the key is absent; ('pend', map): insertion outcome not examined; ('dup', map)."""

  def __init__(self, fn, members, shared):
    Held.__init__(self, fn)
    self.members = members
    self.shared = shared
    self.found = {}      # iterator/reference variable -> (map, lock path at lookup)
    self.ins = {}        # outcome variable -> map
    self.viol = {}
    self.sites = {}
    self.moved = {}      # variable moved into a map -> map
    self.status = 'Status' in (fn.get('crt') or fn.get('rt') or '')
    self.uses = {}
    self.boolv = {}

  def mem(self, e):
    """The guarded map e names."""
    e = strip(e)
    if e is None:
      return None
    if e['k'] in ('Mem', 'DMem'):
      q = e.get('mq')
      if q in self.members:
        return self.p.of(e)
      d = self.entry_var(e)
      if d is not None and MAPS.search(e.get('t') or ''):
        m = self.ins[d] if d in self.ins else self.found[d][0]
        return '%s.second' % m
      return None
    if e['k'] == 'OCall' and e['op'] in ('*', '->'):
      return self.mem(e['a'][0])
    if e['k'] == 'Ref' and e.get('d') in self.shared:
      return '#%s' % e['d']
    return None

  def entry_var(self, e):
    """e is `it->second` of an iterator into a guarded map: a map nested in the map."""
    e = strip(e)
    if e is None or e['k'] not in ('Mem', 'DMem') or e['m'] != 'second':
      return None
    b = strip(e['b'])
    if b['k'] == 'OCall' and b['op'] in ('->', '*'):
      b = strip(b['a'][0])
    if b['k'] == 'Ref' and (b.get('d') in self.ins or b.get('d') in self.found):
      return b['d']
    return None

  def key(self, m):
    if m.endswith('.second'):
      return 'the map in ' + self.key(m[:-7])
    return short(m.replace('.', '::'))

  def lockset(self, s):
    return frozenset(p for p, _ in held(s))

  def bad(self, n, m, what):
    if (self.fn['n'], self.key(m)) in BY_DESIGN:
      self.sites[(n['l'], 'by design')] = 1
      return
    self.viol[(n['l'], what)] = m

  def absent(self, s, m):
    return any(x[0] == 'no' and x[1] == m for x in s)

  def drop(self, s, m, kinds=('no', 'pend', 'dup')):
    return frozenset(x for x in s if not (x[0] in kinds and x[1] == m))

  # releasing a lock forgets what was seen under it
  def scope_end(self, vs, s):
    before = self.lockset(s)
    (s,) = Held.scope_end(self, vs, s)
    if self.lockset(s) != before:
      s = frozenset(x for x in s if x[0] != 'no')
    return (s,)

  def expr(self, n, s):
    before = self.lockset(s)
    r = Held.expr(self, n, s)
    out = []
    for t in r:
      if self.lockset(t) != before:
        t = frozenset(x for x in t if x[0] != 'no')
      out.append(self.step(n, t))
    return tuple(out)

  def step(self, n, s):
    k = n['k']
    if k in CALLS:
      o = callee_obj(n)
      m = callee_short(n)
      mp = self.mem(o) if o is not None else None
      if mp:
        if m in KEEPS:
          self.sites[(n['l'], m)] = 1
          for a in n['a']:
            for x in walk(a):
              if x['k'] in CALLS and callee_short(x) == 'move' and x['a'] and strip(x['a'][0])['k'] == 'Ref':
                self.moved[strip(x['a'][0]).get('d')] = mp
          if self.absent(s, mp):
            return self.drop(s, mp)
          return self.drop(s, mp) | {('pend', mp, n['l'])}
        if m in ('insert_or_assign', 'erase', 'clear', 'extract', 'swap'):
          self.sites[(n['l'], m)] = 1
          if not (self.absent(s, mp) and m == 'insert_or_assign'):
            self.bad(n, mp, '%s may replace or remove an entry of %s' % (m, self.key(mp)))
          return s
      if o is not None and m in ('contains', 'find', 'count') + KEEPS:
        # the entry is itself a map that is examined next
        for x in walk(o):
          if x['k'] == 'Ref' and x.get('d') in self.ins:
            s = self.drop(s, self.ins[x['d']], ('pend', 'dup'))
      if m in ('store',) and o is not None and 'ThreadSafeSharedPtr' in (strip(o).get('t') or ''):
        p = self.p.of(o)
        self.sites[(n['l'], m)] = 1
        if not any(x[0] == 'no' and x[1] == p for x in s) and p and short(p.replace('.', '::')) in ('operator_implementation',):
          self.bad(n, p, 'stores into %s without having seen, under the same lock, that it is empty' % p.split('.')[-1])
        return s
    # map[k] = v, ref = v
    t = None
    if k == 'OCall' and n['op'] == '=':
      t = strip(n['a'][0])
    elif k == 'Bin' and n['op'] == '=':
      t = strip(n['x'])
    if t is not None:
      if t['k'] == 'OCall' and t['op'] == '[]' or t['k'] == 'Sub':
        b = t['a'][0] if t['k'] == 'OCall' else t['b']
        mp = self.mem(b)
        if mp:
          self.sites[(n['l'], '[]=')] = 1
          if not self.absent(s, mp):
            self.bad(n, mp, 'writes an entry of %s that it has not seen to be absent under the same lock' % self.key(mp))
          return self.drop(s, mp, ('no',))
      if t['k'] == 'Ref' and t.get('d') in self.found and self.found[t['d']][2] == 'ref':
        mp = self.found[t['d']][0]
        self.sites[(n['l'], 'ref=')] = 1
        if not self.absent(s, mp):
          self.bad(n, mp, 'writes an entry of %s that it has not seen to be absent under the same lock' % self.key(mp))
        return self.drop(s, mp, ('no',))
      if t['k'] == 'Ref':
        # it = map.find(..)
        mp = self.lookup(n['a'][1] if k == 'OCall' else n['y'])
        if mp:
          self.found[t['d']] = (mp, None, 'it')
          return self.drop(s, mp, ('no',))
    return s

  def lookup(self, e):
    e = strip(e)
    if e['k'] in CALLS and callee_short(e) == 'find' and callee_obj(e) is not None:
      return self.mem(callee_obj(e))
    return None

  def declare(self, v, s):
    i = v.get('i')
    if i is not None:
      e = strip(i)
      mp = self.lookup(e)
      if mp:
        self.found[v['d']] = (mp, None, 'it')
        s = self.drop(s, mp, ('no',))
      if (v.get('t') or '').rstrip().endswith('&') and e['k'] in ('OCall', 'Sub') and (e['k'] == 'Sub' or e['op'] == '[]'):
        mp = self.mem(e['a'][0] if e['k'] == 'OCall' else e['b'])
        if mp:
          self.found[v['d']] = (mp, None, 'ref')
          s = self.drop(s, mp, ('no',))
      if e['k'] in CALLS and callee_short(e) in KEEPS and callee_obj(e) is not None and self.mem(callee_obj(e)):
        mp = self.mem(callee_obj(e))
        self.ins[v['d']] = mp
        for b in v.get('b') or []:
          self.ins[b['d']] = mp
      if (v.get('t') or '').replace('const ', '') == 'bool':
        self.boolv[v['d']] = i
      self.uses[v['d']] = {y.get('d') for y in walk(i) if y['k'] == 'Ref'}
    return Held.declare(self, v, s)

  def outcome(self, e):
    """e is the "inserted" result of an insertion -> map"""
    e = strip(e)
    if e['k'] == 'Ref':
      if e.get('d') in self.ins:
        return self.ins[e['d']]
    if e['k'] in ('Mem', 'DMem') and e['m'] == 'second':
      b = strip(e['b'])
      if b['k'] == 'Ref' and b.get('d') in self.ins:
        return self.ins[b['d']]
      if b['k'] in CALLS and callee_short(b) in KEEPS and callee_obj(b) is not None:
        return self.mem(callee_obj(b))
    return None

  def isend(self, e):
    e = strip(e)
    return e['k'] in CALLS and callee_short(e) in ('end', 'cend')

  def nul(self, e):
    e = strip(e)
    return e['k'] == 'Null_' or (e['k'] == 'Int' and e['v'] == '0') or pp(e) in ('nullptr', '{}')

  def what(self, c, depth=0):
    """-> (map, truth of c that means "absent")"""
    c = strip(c)
    if c['k'] == 'Un' and c['op'] == '!':
      r = self.what(c['e'], depth)
      return (r[0], not r[1]) if r else None
    if c['k'] == 'Ref' and c.get('d') in self.boolv and depth < 4:
      return self.what(self.boolv[c['d']], depth + 1)
    if c['k'] in CALLS and callee_short(c) in ('contains', 'count') and callee_obj(c) is not None:
      m = self.mem(callee_obj(c))
      if m:
        return m, False
    if c['k'] in CALLS and callee_short(c) == 'operator bool' and callee_obj(c) is not None:
      c = strip(callee_obj(c))
    a = None
    if c['k'] == 'OCall' and c['op'] in ('==', '!=') and len(c['a']) == 2:
      a, op = c['a'], c['op']
    elif c['k'] == 'Bin' and c['op'] in ('==', '!='):
      a, op = (c['x'], c['y']), c['op']
    if a:
      for x, y in ((a[0], a[1]), (a[1], a[0])):
        sx = strip(x)
        if self.isend(y):
          if sx['k'] == 'Ref' and sx.get('d') in self.found:
            return self.found[sx['d']][0], op == '=='
          m = self.lookup(sx)
          if m:
            return m, op == '=='
        if self.nul(y):
          if sx['k'] == 'Ref' and sx.get('d') in self.found and self.found[sx['d']][2] == 'ref':
            return self.found[sx['d']][0], op == '=='
          if sx['k'] == 'OCall' and sx['op'] == '[]' and self.mem(sx['a'][0]):
            return self.mem(sx['a'][0]), op == '=='
          if 'ThreadSafeSharedPtr' in (sx.get('t') or ''):
            return self.p.of(sx), op == '=='
          if sx['k'] in CALLS and callee_short(sx) == 'load' and callee_obj(sx) is not None and 'ThreadSafeSharedPtr' in (strip(callee_obj(sx)).get('t') or ''):
            return self.p.of(callee_obj(sx)), op == '=='
          if sx['k'] in CALLS and callee_short(sx) in ('count',) and callee_obj(sx) is not None and self.mem(callee_obj(sx)):
            return self.mem(callee_obj(sx)), op == '=='
    if c['k'] == 'Ref' and c.get('d') in self.found and self.found[c['d']][2] == 'ref':
      return self.found[c['d']][0], False
    return None

  def atom(self, c, truth, s):
    c = strip(c)
    for _ in range(8):
      if c['k'] == 'Un' and c['op'] == '!':
        c, truth = strip(c['e']), not truth
      elif c['k'] == 'Ref' and c.get('d') in self.boolv and c['d'] not in self.ins:
        c = strip(self.boolv[c['d']])
      else:
        break
    m = self.outcome(c)
    if m:
      s = self.drop(s, m, ('pend',))
      return (s if truth else s | {('dup', m)},)
    r = self.what(c)
    if r and r[0]:
      mp, yes = r
      if truth == yes:
        if held(s):
          return (self.drop(s, mp, ('no', 'dup')) | {('no', mp)},)
        return (s,)
      if self.status:
        return (self.drop(s, mp, ('no',)) | {('has', mp)},)
      return (self.drop(s, mp, ('no',)),)
    return (s,)

  def ret(self, n, s):
    e = n.get('e')
    if e is None:
      return (s,)
    err = guard.error_expr(e)
    for x in s:
      if x[0] == 'dup' and self.status and not err and not self.fromthe(e, x[1]):
        self.bad(n, x[1], 'reports success although the key was already taken in %s' % self.key(x[1]))
      if x[0] == 'pend' and not err:
        if self.fromthe(e, x[1]):
          continue
        vs = {y.get('d') for y in walk(e) if y['k'] == 'Ref'}
        for _ in range(4):
          vs |= {d for v in vs for d in self.uses.get(v, ())}
        if vs & {d for d, m in self.moved.items() if m == x[1]} or (self.status and 'StatusOr' not in (self.fn.get('crt') or self.fn.get('rt') or '')):
          self.bad(n, x[1], 'does not look at the outcome of the insertion into %s' % self.key(x[1]))
    return (s,)

  def fromthe(self, e, mp):
    """e reads the entry of the map"""
    for y in walk(e):
      if y['k'] == 'Ref' and (y.get('d') in self.found and self.found[y['d']][0] == mp or self.ins.get(y.get('d')) == mp):
        return True
      if y['k'] in CALLS and callee_obj(y) is not None and self.mem(callee_obj(y)) == mp:
        return True
    return False


def run(c):
  F = facts.load(facts.ALL)
  members = {}
  for rs in F.records.values():
    for r in rs:
      if r['kind'] == 'inst' or not r.get('fields') or '/testing/' in r['file']:
        continue
      if any(is_mutex(f['t']) for f in r['fields']):
        for f in r['fields']:
          if MAPS.search(f['ct']) or MAPS.search(f['t']):
            members['%s::%s' % (r['n'], f['n'])] = f
  c.need(len(members) >= 20, 'registry maps')
  c.count('registry maps', len(members))
  touched = set()
  for f in F.functions:
    if not f.get('body') or '/testing/' in f['file']:
      continue
    shared = {}
    hit = False
    for n in walk(f['body']):
      if n['k'] == 'Mem' and n.get('mq') in members:
        hit = True
        touched.add(n['mq'])
      if n['k'] == 'Decl':
        sl = [v for v in n['v'] if v.get('sl')]
        for v in sl:
          if MAPS.search(v.get('t') or ''):
            shared[v['d']] = v
      if n['k'] in CALLS and callee_short(n) == 'store' and callee_obj(n) is not None and 'ThreadSafeSharedPtr' in (strip(callee_obj(n)).get('t') or ''):
        hit = True
    mt = any(n['k'] == 'Decl' and any(v.get('sl') and is_mutex(v.get('t')) for v in n['v']) for n in walk(f['body']))
    if not mt:
      shared = {}
    if not (hit or shared):
      continue
    cls = f['n'].rsplit('::', 1)[0]
    m = short(f['n'])
    if m == short(cls):
      continue   # constructors
    c.count('functions that use a registry map')
    x = R(f, members, shared)
    try:
      x.entry(f['body'])
    except flow.Explosion:
      c.undecided('%s:%d' % (f['file'], f['l']), f['n'])
      continue
    todo, depth = x.lams, 0
    par = parents(f['body'])
    while todo and depth < 4:
      x.lams = []
      for n, s in {id(a): (a, st) for a, st in todo}.values():
        x.st(n.get('body'), {s})
      todo, depth = x.lams, depth + 1
    for (l, what) in sorted(x.sites):
      if not any(v[0] == l for v in x.viol):
        if what == 'by design':
          c.count('replacements by design')
        else:
          c.ok('%s:%d %s %s' % (f['file'], l, f['n'], what))
    for (l, what), mp in sorted(x.viol.items()):
      c.bad('%s:%d' % (f['file'], l), '%s %s' % (f['n'], what), key='%s %s' % (f['n'], what))
  c.count('maps accessed', len(touched))


report.main('R01', RULE, run)
