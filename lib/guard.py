"""Path-sensitive validity analysis: a fallible holder (StatusOr, optional,
downcast or lookup result) may be dereferenced only where every path to the
dereference has established that it holds a value."""
import re

from flow import Flow
from tree import CALLS, callee_name, callee_obj, callee_short, strip, walk, pp

STATUSOR = re.compile(r'^(const )?(::)?(absl::)?StatusOr<')
OPTIONAL = re.compile(r'^(const )?(::)?(std::|absl::)?optional<')
RM = re.compile(r'^typename std::remove_reference<(.*?) ?&>::type$')


def norm_type(t):
  t = (t or '').strip()
  m = RM.match(t)
  if m:
    t = m.group(1)
  t = re.sub(r' ?&+$', '', t).strip()
  t = re.sub(r' const$', '', t)
  return t


def holder(t):
  t = norm_type(t)
  if STATUSOR.match(t):
    return 'statusor'
  if OPTIONAL.match(t):
    return 'optional'
  return None


CASTS = ('fast_dynamic_downcast_final', 'dynamic_pointer_cast', 'down_cast_or_null')


class Guard(Flow):
  """State: frozenset of facts; a fact is a key that is known to be valid."""

  def __init__(self, fn, maybe_null=lambda call: False, summaries=None):
    self.fn = fn
    self.maybe_null = maybe_null
    self.viol = {}
    self.derefs = {}
    self.alias = {}    # bool variable -> (key, polarity) recorded at declaration
    self.src = {}      # pointer/iterator variables of fallible origin: d -> description
    self.lam_states = []
    self.subst = {}    # reference variable -> place it is bound to
    self.origin = {}   # holder variable -> the call that produced it
    self.summaries = summaries
    self.busy = False
    self.exits = []    # states of successful returns, for summaries

  # -- naming ---------------------------------------------------------------
  def key(self, e):
    """Canonical name of a place, or None. Places mention variables as #d."""
    e = strip(e)
    if e is None:
      return None
    k = e['k']
    if k == 'Ref':
      if 'd' in e:
        d = '#%s' % e['d']
        return self.subst.get(d, d)
      return e.get('n')
    if k == 'This':
      return 'this'
    if k in ('Mem', 'DMem'):
      b = self.key(e['b']) if e.get('b') else 'this'
      return None if b is None else b + '.' + e['m']
    if k == 'OCall' and e['op'] in ('->', '*') and len(e['a']) == 1:
      b = self.key(e['a'][0])
      return None if b is None else '*' + b
    if k == 'Un' and e['op'] in ('*', '&'):
      b = self.key(e['e'])
      if b is None:
        return None
      if e['op'] == '&':
        return '&' + b
      return b[1:] if b.startswith('&') else '*' + b
    if k == 'OCall' and e['op'] == '[]' and len(e['a']) == 2:
      b, i = self.key(e['a'][0]), self.key(e['a'][1])
      return None if b is None or i is None else '%s[%s]' % (b, i)
    if k == 'Sub':
      b, i = self.key(e['b']), self.key(e['i'])
      return None if b is None or i is None else '%s[%s]' % (b, i)
    if k == 'Int':
      return e['v']
    if k == 'Str':
      return '"%s"' % e['v']
    if k == 'MCall':
      o = callee_obj(e)
      b = self.key(o) if o else 'this'
      m = e.get('m') or callee_short(e)
      if b is None or (e.get('fn') and not e.get('const')):
        return None
      args = [self.key(a) for a in e['a'] if a['k'] != 'DfltArg']
      if any(a is None for a in args):
        return None
      return '%s.%s(%s)' % (b, m, ','.join(args))
    if k == 'Call' and e.get('fn') and len(e['a']) <= 2:
      args = [self.key(a) for a in e['a'] if a['k'] != 'DfltArg']
      if any(a is None for a in args) or not args:
        return None
      return '%s(%s)' % (e['fn'], ','.join(args))
    return None

  @staticmethod
  def kill(s, key):
    """Drops facts about places that mention `key`."""
    rx = re.compile(re.escape(key) + r'(?!\d)')
    return frozenset(x for x in s if not rx.search(x if isinstance(x, str) else ' '.join(map(str, x))))

  # -- fallible origins -----------------------------------------------------
  def fallible(self, e):
    """Why the pointer/iterator produced by e may be invalid, or None."""
    e = self.peel(e)
    if e is None:
      return None
    if e['k'] == 'Cast' and (e.get('ck') == 'Dynamic' or e.get('sc') == 'dynamic'):
      return 'dynamic_cast'
    if e['k'] in CALLS:
      n = callee_short(e)
      if n in CASTS:
        return n
      if e['k'] == 'MCall' and n in ('find', 'lower_bound', 'upper_bound') and 'iterator' in (e.get('t') or ''):
        return n
      if self.maybe_null(e):
        return n
    return None

  def peel(self, e):
    while e:
      if e['k'] == 'Cast' and e.get('ck') != 'Dynamic' and e.get('sc') != 'dynamic':
        e = e['e']
      elif e['k'] == 'Ctor' and len(e['a']) == 1:
        e = e['a'][0]
      else:
        return e
    return e

  def valid_value(self, e, kind, s):
    """Is e an expression that certainly yields a valid holder of `kind`?"""
    if e is None:
      return False
    p = e
    while True:
      if p['k'] == 'Cast':
        p = p['e']
      elif p['k'] == 'Ctor' and len([a for a in p['a'] if a['k'] != 'DfltArg']) == 1 and p['a']:
        p = p['a'][0]
      elif p['k'] in CALLS and callee_short(p) in ('move', 'forward') and p['a']:
        p = p['a'][0]
      else:
        break
    k = self.key(p)
    if holder(p.get('t')):
      return ('ok', k) in s if k else False
    if p['k'] == 'Ctor' and not p['a']:
      return False
    t = norm_type(p.get('t'))
    if 'nullopt' in t or t.endswith('Status') or 'StatusBuilder' in t or t.endswith('StatusAdaptor') or p['k'] == 'Null_':
      return False
    if not t or 'dependent' in t or t == 'auto':
      return False
    return True

  # -- flow hooks -----------------------------------------------------------
  def set_ok(self, s, key, ok=True):
    return s | {('ok', key)} if ok else s - {('ok', key)}

  def declare(self, v, s):
    d = '#%s' % v.get('d')
    s = self.kill(s, d)
    i = v.get('i')
    if i is None:
      return (s,)
    t = v.get('t') or ''
    if t.endswith('&') and strip(i)['k'] != 'Lambda':
      k = self.key(i)
      if k and k != d and not k.startswith(d + '.'):
        self.subst[d] = k
        return (s,)
    self.subst.pop(d, None)
    so = self.peel_status(i)
    if so is not None and ('Status' in t or 'Adaptor' in t or 'auto' == t or 'bool' in t):
      self.origin[d] = so
    h = holder(v.get('t')) or holder(i.get('t'))
    if h:
      if self.valid_value(i, h, s):
        s = self.set_ok(s, d)
      return (s,)
    why = self.fallible(i)
    if why:
      self.src[d] = why
      o = self.peel(i)
      if o['k'] == 'MCall' and callee_obj(o) is not None:
        pass
      return (s,)
    k = self.key(i)
    if k in self.src:
      self.src[d] = self.src[k]
      if ('ok', k) in s:
        s = self.set_ok(s, d)
      return (s,)
    c = strip(i)
    if c['k'] == 'Cond':
      f = self.test(c['c'])
      y = strip(c['y'])
      if f and (y['k'] == 'Int' or y['k'] == 'Ref'):
        s = s | {('sel', d, f[0], f[1], pp(y))}
    if (v.get('t') or '').replace('const ', '').strip() in ('bool', 'auto'):
      f = self.test(i)
      if f:
        s = s | {('bool', d, f[0], f[1])}
    return (s,)

  def test(self, c):
    """c as a validity test: (key, truth that means valid) or None."""
    c = strip(c)
    if c is None:
      return None
    k = c['k']
    if k == 'Un' and c['op'] == '!':
      f = self.test(c['e'])
      return (f[0], not f[1]) if f else None
    if k == 'MCall':
      m = c.get('m') or callee_short(c)
      o = callee_obj(c)
      if m in ('ok', 'has_value', 'operator bool') and o is not None:
        so = strip(o)
        if m == 'ok' and so['k'] == 'MCall' and (so.get('m') or callee_short(so)) == 'status':
          o = callee_obj(so)
        kk = self.key(o)
        return (kk, True) if kk else None
    if k == 'Call':
      o = callee_obj(c)
      m = callee_short(c)
      if o is not None and m in ('ok', 'has_value'):
        kk = self.key(o)
        return (kk, True) if kk else None
    if k in ('Ref', 'Mem'):
      kk = self.key(c)
      return (kk, True) if kk else None
    if k in ('Bin', 'OCall') and c.get('op') in ('==', '!='):
      x, y = (c['x'], c['y']) if k == 'Bin' else (c['a'][0], c['a'][1]) if len(c['a']) == 2 else (None, None)
      if x is None:
        return None
      for p, q in ((x, y), (y, x)):
        q = strip(q)
        if q['k'] == 'Null_' or 'nullopt' in (q.get('t') or '') or (q['k'] in CALLS and callee_short(q) in ('end', 'cend')):
          kk = self.key(p)
          if kk:
            return (kk, c['op'] == '!=')
    kk = self.key(c)
    return (kk, True) if kk else None

  def peel_status(self, e):
    """The call whose status e carries."""
    while e:
      e = strip(e)
      if e is None:
        return None
      if e['k'] in ('Ctor', 'Init', 'DCtor'):
        a = [x for x in (e.get('a') or e.get('c') or []) if x['k'] != 'DfltArg']
        if len(a) != 1:
          return None
        e = a[0]
        continue
      if e['k'] in CALLS:
        n = callee_short(e)
        if n in ('AsStatus', 'ToStatus', 'GetStatusOrOk') and len(e['a']) == 1:
          e = e['a'][0]
          continue
        return e
      return None
    return None

  def call_facts(self, e, s):
    """What is known when call e (status or predicate) succeeded."""
    e = strip(e)
    if e is None:
      return s
    n = callee_short(e) if e['k'] in CALLS else ''
    if n in ('status', 'ok') and callee_obj(e) is not None:
      k = self.key(callee_obj(e))
      return self.learn(s, k, True) if k else s
    if self.summaries is None or e['k'] not in CALLS:
      return s
    sm = self.summaries(e)
    if not sm:
      return s
    params, facts = sm
    sub = {}
    for p, a in zip(params, e['a']):
      k = self.key(a)
      if k:
        sub[p] = k
    o = callee_obj(e)
    if o is not None:
      k = self.key(o)
      if k:
        sub['this'] = k
    elif e['k'] == 'MCall':
      sub['this'] = 'this'
    for f in facts:
      names = set(re.findall(r'#\d+|\bthis\b', f[1]))
      if not names <= set(sub):
        continue
      k = re.sub(r'#\d+|\bthis\b', lambda m: sub[m.group(0)], f[1]).replace('*&', '')
      if f[0] == 'all':
        for x in s:
          if x[0] == 'no' and x[1].startswith(k + '[') and x[1].endswith(f[2]):
            return None
        continue
      s = self.learn(s, k, f[0] == 'ok')
      if s is None:
        return None
    return s

  def atom(self, c, truth, s):
    r = self.atom_(c, truth, s)
    if truth and r:
      x = strip(c)
      if x['k'] in CALLS and self.summaries is not None:
        r2 = self.call_facts(x, r[0])
        return () if r2 is None else (r2,)
    return r

  def atom_(self, c, truth, s):
    f = self.test(c)
    x = strip(c)
    if x['k'] == 'Bin' and x['op'] in ('==', '!='):
      for p, q in ((x['x'], x['y']), (x['y'], x['x'])):
        kp = self.key(p)
        for y in s:
          if y[0] == 'sel' and y[1] == kp and pp(strip(q)) == y[4] and (x['op'] == '!=') == truth:
            s = self.learn(s, y[2], y[3])
            if s is None:
              return ()
    if not f:
      return (s,)
    key, pol = f
    for x in s:
      if x[0] == 'bool' and x[1] == key:
        # a remembered test
        if truth:
          s = self.learn(s, x[2], x[3])
        else:
          s = self.learn(s, x[2], not x[3])
        if s is None:
          return ()
    r = self.learn(s, key, truth == pol)
    return () if r is None else (r,)

  def learn(self, s, key, valid):
    keys = {key}
    for x in s:
      if x[0] == 'eq' and x[1] in keys:
        keys.add(x[2])
      if x[0] == 'eq' and x[2] in keys:
        keys.add(x[1])
    for k in keys:
      if valid:
        if ('no', k) in s:
          return None
        s = s | {('ok', k)}
        if k in self.origin and not self.busy:
          self.busy = True
          s = self.call_facts(self.origin[k], s)
          self.busy = False
          if s is None:
            return None
        if k.endswith('is_literal()'):
          s = s | {('ok', k[:-len('is_literal()')] + 'qvalue()')}
      else:
        if ('ok', k) in s:
          return None
        s = s | {('no', k)}
    return s

  def invalidate(self, s, place):
    k = self.key(place)
    if k:
      s = self.kill(s, k)
    return s

  def expr(self, n, s):
    k = n['k']
    if k in ('Bin', 'OCall') and n.get('op') == '=':
      x, y = (n['x'], n['y']) if k == 'Bin' else n['a'][:2] if len(n['a']) == 2 else (None, None)
      if x is not None:
        kk = self.key(x) if not (strip(x)['k'] in CALLS and callee_short(strip(x)) == 'tie') else None
        if kk:
          okv = False
          if holder(x.get('t')):
            okv = self.valid_value(y, holder(x.get('t')), s)
          ky = self.key(y)
          oky = ky and ('ok', ky) in s
          why = self.fallible(y)
          s = self.kill(s, kk)
          if okv or (oky and not holder(x.get('t'))):
            s = self.set_ok(s, kk)
          if not holder(x.get('t')):
            if why:
              self.src[kk] = why
            elif kk in self.src:
              s = self.set_ok(s, kk)
          so = self.peel_status(y)
          if True:
            if so is not None and re.match(r'#\d+$', kk):
              self.origin[kk] = so
            else:
              self.origin.pop(kk, None)
        elif strip(x)['k'] in CALLS and callee_short(strip(x)) == 'tie':
          for a in strip(x)['a']:
            ka = self.key(a)
            if ka:
              s = self.kill(s, ka)
              if ka in self.src:
                s = self.set_ok(s, ka)
      return (s,)
    if k == 'Bin' and n['op'].endswith('=') and n['op'] not in ('==', '!=', '<=', '>='):
      return (self.invalidate(s, n['x']),)
    if k == 'Un' and n['op'] in ('++', '--', 'post++', 'post--'):
      return (self.invalidate(s, n['e']),)
    if k == 'MCall':
      m = n.get('m') or callee_short(n)
      o = callee_obj(n)
      if o is not None:
        ko = self.key(o)
        if ko and holder(o.get('t')):
          if m == 'emplace':
            return (self.set_ok(self.kill(s, ko), ko),)
          if m in ('reset', 'swap'):
            return (self.kill(s, ko),)
          if m == 'value' and not n['a']:
            self.deref(n, o, s)
            return (self.set_ok(s, ko),)
        elif ko and n.get('fn') and not n.get('const') and not n.get('static'):
          # a mutating member call invalidates what is known about parts of the object
          own = ('ok', ko) in s
          sub = [x for x in s if isinstance(x, tuple) and any(isinstance(y, str) and y.startswith(ko + '.') for y in x)]
          s = s - frozenset(sub)
      elif m == 'value' and holder(n.get('o', {}).get('t') if n.get('o') else None):
        self.deref(n, n['o'], s)
    if k == 'MCall' and (n.get('m') == 'value') and not n['a'] and n.get('o') and holder(n['o'].get('t')) and not self.key(n['o']):
      self.deref(n, n['o'], s)
      return (s,)
    if k == 'OCall' and n['op'] in ('*', '->') and len(n['a']) == 1:
      return self.after(n, n['a'][0], s)
    if k == 'Un' and n['op'] == '*':
      return self.after(n, n['e'], s)
    if k == 'Mem' and n.get('arrow') and n.get('b'):
      return self.after(n, n['b'], s)
    if k == 'MCall' and n.get('o') and n.get('arrow'):
      return self.after(n, n['o'], s)
    return (s,)

  def after(self, n, o, s):
    self.deref(n, o, s)
    k = self.key(o)
    if k and (holder(o.get('t')) or k in self.src):
      s = self.set_ok(s, k)
    return (s,)

  def deref(self, n, o, s):
    h = holder(o.get('t'))
    k = self.key(o)
    so = strip(o)
    if not h:
      if k in self.src:
        h = self.src[k]
      else:
        why = self.fallible(so) if so['k'] in CALLS or so['k'] == 'Cast' else None
        if so is not o and not why:
          why = self.fallible(o)
        if not why:
          return
        h = why
    site = (n['l'], pp(o)[:80])
    self.derefs[site] = h
    if k is None or ('ok', k) not in s:
      self.viol.setdefault(site, h)

  assume_dchecks = True

  def pre(self, n, S):
    # DCHECK(c) in this build: (true || (c)) ? (void)0 : ...
    if n['k'] == 'Cond' and n['c'] and strip(n['c'])['k'] == 'Bin' and strip(n['c'])['op'] == '||':
      c = strip(n['c'])
      if strip(c['x'])['k'] == 'Bool' and strip(c['x'])['v']:
        if not self.assume_dchecks:
          return S
        t, _ = self.cond(c['y'], S)
        return t or S
    return None

  def case(self, sw, labels, s):
    k = self.key(sw['cond'])
    if k and k.endswith('.type()'):
      names = [pp(l) if l is not None else None for l in labels]
      if len(names) == 1 and names[0] and names[0].endswith('kLiteral'):
        return (s | {('ok', k[:-len('type()')] + 'qvalue()')},)
    return (s,)

  def ret(self, n, s):
    if not self.in_lambda:
      self.exits.append((n.get('e'), s))
    return (s,)

  in_lambda = False

  def lam(self, n, s):
    self.lam_states.append((n, s))
    return (s,)


def error_expr(e):
  """Is e certainly an error status?"""
  e = strip(e)
  while e and e['k'] in ('Ctor', 'Init') and len([a for a in (e.get('a') or e.get('c') or []) if a['k'] != 'DfltArg']) == 1:
    e = strip((e.get('a') or e.get('c'))[0])
  if e is None:
    return False
  if e['k'] in CALLS:
    n = callee_short(e)
    if n.endswith('Error') or n == 'Consume':
      return True
    if n == 'operator<<' or e.get('op') == '<<':
      return error_expr(e['a'][0])
  if e['k'] == 'Ref' and 'StatusBuilder' in (e.get('t') or ''):
    return True
  if e['k'] == 'Ctor' and re.search(r'(^|::)Status$', e.get('cls') or '') and len(e['a']) >= 2:
    a = strip(e['a'][0])
    return a['k'] == 'Ref' and '::k' in a['n'] and not a['n'].endswith('::kOk')
  return False


class Summaries:
  """Facts about its parameters that a successful call establishes."""

  def __init__(self, facts):
    self.F = facts
    self.memo = {}
    self.depth = 0

  def __call__(self, call):
    fn = self.F.callee(call)
    if fn is None or not fn.get('body'):
      return None
    rt = (fn.get('crt') or fn.get('rt') or '')
    if not ('Status' in rt or rt == 'bool'):
      return None
    u = id(fn)
    if u in self.memo:
      return self.memo[u]
    self.memo[u] = None
    if self.depth > 5:
      return None
    self.depth += 1
    try:
      self.memo[u] = self.compute(fn, rt)
    finally:
      self.depth -= 1
    return self.memo[u]

  def compute(self, fn, rt):
    params = ['#%s' % p['d'] if 'd' in p else '#%d' % i for i, p in enumerate(fn['p'])]
    al = self.all_of(fn, params)
    if al:
      return params, al
    g = Guard(fn, summaries=self)
    try:
      g.run(fn['body'], [frozenset()])
    except Exception as e:
      if type(e).__name__ == 'Explosion':
        return None
      raise
    acc = None
    for e, s in list(g.exits):
      if e is None:
        return None
      if rt == 'bool':
        t, _ = g.cond(e, {s})
        outs = list(t)
      else:
        if error_expr(e):
          continue
        so = g.peel_status(e)
        if so is not None and callee_short(so) != 'OkStatus':
          r = g.call_facts(so, s)
          outs = [] if r is None else [r]
        else:
          outs = [s]
      for o in outs:
        fs = {x for x in o if x[0] in ('ok', 'no') and all(v in params for v in re.findall(r'#\d+', x[1]))}
        acc = fs if acc is None else acc & fs
    if not acc:
      return None
    return params, sorted(acc)

  def all_of(self, fn, params):
    """for (x : p) { if (!x.m()) return false; } return true"""
    b = fn['body']['c']
    if len(b) != 2 or b[0]['k'] != 'RangeFor' or b[1]['k'] != 'Return':
      return None
    r = strip(b[1].get('e') or {'k': ''})
    if r['k'] != 'Bool' or not r['v']:
      return None
    rng = strip(b[0]['range'])
    body = b[0]['body']
    body = body['c'][0] if body['k'] == 'Block' and len(body['c']) == 1 else body
    if rng['k'] != 'Ref' or body['k'] != 'If' or body.get('else'):
      return None
    th = body['then']
    th = th['c'][0] if th['k'] == 'Block' and len(th['c']) == 1 else th
    if th['k'] != 'Return' or strip(th['e'])['k'] != 'Bool' or strip(th['e'])['v']:
      return None
    g = Guard(fn)
    f = g.test(body['cond'])
    v = '#%s' % b[0]['var'].get('d')
    if not f or not f[0].startswith(v + '.') or f[1] is not False:
      return None
    return [('all', '#%s' % rng['d'], f[0][len(v):])]


def analyse(fn, maybe_null=lambda c: False, summaries=None):
  g = Guard(fn, maybe_null, summaries)
  g.run(fn['body'], [frozenset()])
  g.in_lambda = True
  done = 0
  while g.lam_states:
    groups = {}
    for n, s in g.lam_states:
      groups.setdefault(id(n), (n, set()))[1].add(s)
    g.lam_states = []
    for n, S in groups.values():
      # what is known when the lambda is created stays true of captured locals
      common = frozenset.intersection(*S)
      g.run(n.get('body'), [common])
    done += 1
    if done > 6:
      break
  return g


class Drop(Guard):
  """Status values: examined before they go out of scope, never masked."""

  def __init__(self, fn, summaries=None):
    super().__init__(fn, summaries=summaries)
    self.types = {}
    self.masked = {}

  @staticmethod
  def is_status(t):
    t = norm_type(t)
    return t in ('absl::Status', 'Status', '::absl::Status', '::absl::StatusBuilder', 'absl::StatusBuilder') or bool(STATUSOR.match(t)) or \
        bool(re.match(r'^(const )?(std::|absl::)?optional<(absl::)?Status(Or<.*)?>$', t))

  def declare(self, v, s):
    r = super().declare(v, s)
    t = v.get('t') or ''
    if self.is_status(t) and not t.endswith('&') and v.get('i') is not None:
      d = '#%s' % v['d']
      self.types[d] = v
      p = self.peel_status(v['i'])
      if 'StatusBuilder' in t or p is not None and callee_short(p) != 'OkStatus':
        r = [x | {('new', d)} for x in r]
    return r

  def expr(self, n, s):
    if n['k'] == 'Ref' and 'd' in n:
      d = '#%s' % n['d']
      return (s - {('new', d), ('err', d)},)
    if n['k'] in ('Bin', 'OCall') and n.get('op') == '=':
      a = (n['x'], n['y']) if n['k'] == 'Bin' else n['a'][:2]
      x = strip(a[0])
      r = super().expr(n, s)
      if x['k'] == 'Ref' and self.is_status(x.get('t')) and '#%s' % x.get('d') in self.types and len(a) == 2:
        p = self.peel_status(a[1])
        if p is not None and callee_short(p) != 'OkStatus':
          r = [y | {('new', '#%s' % x['d'])} for y in r]
      return r
    return super().expr(n, s)

  def pre(self, n, S):
    if n['k'] in ('Bin', 'OCall') and n.get('op') == '=':
      a = (n['x'], n['y']) if n['k'] == 'Bin' else n['a'][:2]
      x = strip(a[0])
      if x['k'] == 'Ref' and 'd' in x and len(a) == 2:
        d = '#%s' % x['d']
        if d in self.types and not any(y['k'] == 'Ref' and y.get('d') == x['d'] for y in walk(a[1])):
          if any(('new', d) in s for s in S):
            self.viol.setdefault((n['l'], x['n']), 'is overwritten before it is examined')
    if n['k'] == 'Cast' and n.get('ck') == 'ToVoid':
      e = strip(n['e'])
      if e['k'] == 'Ref' or e['k'] == 'MCall' and callee_short(e) == 'ok':
        return S
    return super().pre(n, S)

  def learn(self, s, key, valid):
    r = super().learn(s, key, valid)
    if r is not None and not valid and key in self.types and not OPTIONAL.match(norm_type(self.types[key]['t'])):
      r = r | {('err', key)}
    return r

  def _st_If(self, n, S):
    # a compile-time test of whether errors can occur at all
    if n.get('cx') and not (n['cond'] and n['cond']['k'] == 'Trait' and 'val' in n['cond']) and not n.get('else'):
      ds = {('new', '#%s' % y['d']) for y in walk(n['then']) if y['k'] == 'Ref' and 'd' in y}
      o = super()._st_If(n, S)
      o.fall = {s - ds for s in o.fall}
      return o
    return super()._st_If(n, S)

  def atom(self, c, truth, s):
    r = super().atom(c, truth, s)
    x = strip(c)
    if not truth and x['k'] == 'MCall' and callee_short(x) == 'ok' and callee_obj(x) is not None:
      o = strip(callee_obj(x))
      if o['k'] in CALLS and callee_short(o) != 'status' and self.is_status(o.get('t')) and self.is_status(o.get('rt')):
        d = 'the status of %s' % callee_short(o)
        self.types[d] = {'l': x['l'], 'n': d, 't': o['t']}
        r = [y | {('err', d)} for y in r]
    return r

  def scope_end(self, vs, s):
    for v in vs:
      d = '#%s' % v.get('d')
      if ('new', d) in s:
        self.viol.setdefault((v['l'], v['n']), 'goes out of scope without being examined')
    return (s,)

  def ret(self, n, s):
    e = n.get('e')
    if e is not None and error_expr(e):
      return (frozenset(x for x in s if x[0] not in ('err', 'new')),)
    if e is not None and not self.is_status(e.get('t')) and (e.get('t') or '') != 'void':
      # a predicate or a fallback value: the caller asked for no status
      return (frozenset(x for x in s if x[0] != 'err' and not (x[0] == 'new' and 'StatusBuilder' in self.types[x[1]]['t'])),)
    for x in s:
      if x[0] == 'err' and x[1] in self.types:
        v = self.types[x[1]]
        self.masked.setdefault((n['l'], v['n']), 'holds an error that the return at line %d replaces by a non-error' % n['l'])
    return (s,)

  def deref(self, *a):
    pass


def drops(fn):
  g = Drop(fn)
  g._spill = []
  o = g.st(fn['body'], {frozenset()})
  for s in o.fall:
    for x in s:
      if x[0] == 'err' and x[1] in g.types:
        v = g.types[x[1]]
        g.masked.setdefault((v['l'], v['n']), 'holds an error that is discarded at the end of the function')
  todo = g.lam_states
  depth = 0
  while todo and depth < 6:
    g.lam_states = []
    for n, s in {id(a): (a, b) for a, b in todo}.values():
      g.run(n.get('body'), [frozenset()])
    todo = g.lam_states
    depth += 1
  return g
