"""H01 rule C: what becomes part of an operator or node also reaches its fingerprint."""
import re

from tree import CALLS, callee_name, callee_obj, callee_short, children, pp, short, strip, walk, walk_fn

# (class or function, parameter): kept in the object but not part of its identity, and why
NOT_IDENTITY = {
    ('arolla::expr::BackendWrappingOperator', 'strategy'): 'a function object; the operator is identified by its name',
    ('arolla::expr::BackendWrappingOperator', 'doc'): 'the operator is identified by its name and signature',
    ('arolla::optools::optools_impl::QExprWrappingOperator', 'qexpr_ops'): 'the operator is identified by its name, under which it is registered once',
    ('arolla::optools::optools_impl::QExprWrappingOperator', 'description'): 'the operator is identified by its name',
    ('arolla::expr::RegisteredOperator', 'op_impl_fn'): 'determined by the name',
    ('arolla::expr::eval_internal::DynamicCompiledOperator', 'options'): 'evaluation options, not part of what is computed',
    ('arolla::expr::eval_internal::DynamicCompiledOperator', 'stack_trace'): 'only used in error messages',
    ('arolla::ForestModel::Parameter', 'name'): 'part of the signature, which is hashed',
}
# ambiguities excluded by other means
TOLD = {
    'arolla::ForestModel::Create': 'an absent filter list hashes as the zero fingerprint, which no expression has; the truncation step comes last',
}


def fresh(n):
  """A FingerprintHasher made from a salt."""
  if n['k'] == 'Ctor' and n.get('cls') == 'arolla::FingerprintHasher' and not (n.get('copy') or n.get('move')) and n['a']:
    a = strip(n['a'][0])
    while a is not None and a['k'] in ('Ctor', 'Cast') and (a.get('a') or a.get('e')):
      a = strip((a.get('a') or [a.get('e')])[0])
    return a or n
  return None


def has_fresh(e):
  return e is not None and any(fresh(x) for x in walk(e))


def run(c, F, H):
  node(c, F, H)
  salts = {}
  for fn in F.functions:
    if not fn.get('body') or fn['file'].endswith('_test.cc') or '/testing/' in fn['file'] or 'benchmark' in fn['file'] or fn['file'].startswith('arolla/util/fingerprint'):
      continue
    fs = [fresh(n) for n in walk_fn(fn)]
    fs = [x for x in fs if x is not None]
    if not fs:
      continue
    site(c, F, fn, fs, H)
    for x in fs:
      if x['k'] == 'Str':
        salts.setdefault(x['v'], set()).add(fn['n'])
  for s, fns in sorted(salts.items()):
    if len(fns) > 1:
      c.bad(sorted(fns)[0], 'the salt "%s" is shared by %s: objects of different kinds can have equal fingerprints' % (s, ', '.join(sorted(fns))), 'salt|' + s)
    else:
      c.ok()
  c.count('salts', len(salts))


def site(c, F, fn, fs, H):
  Reader, is_hasher = H.Reader, H.is_hasher
  env = {}
  for p in fn['p']:
    if p['n']:
      env[p['d']] = {(p['n'], 'val')}
  cls = fn['n'].rsplit('::', 1)[0]
  this = cls if any(n['k'] in ('Bin', 'OCall') and n.get('op') == '=' and strip((n.get('x') or n['a'][0]))['k'] == 'Mem' and strip((n.get('x') or n['a'][0])).get('m') == 'fingerprint_'
                    and (strip((n.get('x') or n['a'][0])).get('b') or {}).get('k') == 'This' for n in walk(fn['body']) if n['k'] == 'Bin' or n['k'] == 'OCall' and n.get('a')) else None
  R = Reader(F, fn, env, this=this)
  hv, fv = set(), set()
  for n in walk_fn(fn):
    if n['k'] == 'Var':
      if is_hasher(n.get('t')):
        hv.add(n['d'])
      elif n.get('i') is not None and has_fresh(n['i']):
        fv.add(n['d'])
  R.locals(fn['body'])
  for x in walk_fn(fn):
    if x['k'] == 'Lambda':
      R.locals(x['body'])

  def chain(e):
    """e is a hasher, or a fingerprint made by one."""
    e = strip(e)
    while e is not None:
      if fresh(e):
        return True
      if e['k'] == 'Ref':
        return e.get('d') in hv or e.get('d') in fv
      if e['k'] in CALLS and callee_short(e) in ('Combine', 'CombineSpan', 'Finish'):
        e = strip(callee_obj(e))
      elif e['k'] in ('Cast',):
        e = strip(e['e'])
      elif e['k'] == 'Ctor' and len(e['a']) == 1:
        e = strip(e['a'][0])
      else:
        return False
    return False

  hashed = set()
  for n in walk_fn(fn):
    if n['k'] in CALLS and callee_short(n) in ('Combine', 'CombineSpan', 'CombineRawBytes') and callee_obj(n) is not None and chain(callee_obj(n)):
      for a in n['a']:
        hashed |= R.of(a)
    elif n['k'] in CALLS and any(chain(a) or strip(a)['k'] == 'Un' and chain(strip(a)['e']) for a in n.get('a') or [] if strip(a) is not None) and not callee_short(n).startswith('make_'):
      if is_hasher((strip(n['a'][-1]) or {}).get('t')):
        for a in n['a']:
          hashed |= R.of(a)
        if callee_obj(n) is not None:
          hashed |= R.of(callee_obj(n))
  for x in fs:
    hashed |= R.of(x)
  stored = set()
  for i in fn.get('inits') or []:
    e = i.get('e')
    if e is None:
      continue
    top = strip(e)
    if top is not None and top['k'] in ('Ctor', 'Call') and has_fresh(top):
      for a in top.get('a') or []:
        if not has_fresh(a):
          stored |= R.of(a)
    else:
      stored |= R.of(e)
  for n in walk(fn['body']):
    if n['k'] in CALLS + ('Ctor', 'New', 'Init') and any(chain(a) for a in n.get('a') or []) and not (n['k'] in CALLS and callee_short(n) in ('Combine', 'CombineSpan', 'Finish', 'move')):
      for a in n['a']:
        if not chain(a):
          stored |= R.of(a)
    elif n['k'] == 'Bin' and n['op'] == '=' and strip(n['x'])['k'] in ('Mem', 'DMem') or n['k'] == 'OCall' and n.get('op') == '=' and strip(n['a'][0])['k'] in ('Mem', 'DMem'):
      y = n['y'] if n['k'] == 'Bin' else n['a'][1]
      if not chain(y):
        stored |= R.of(y)
  c.count('fingerprint constructions')
  loc = '%s:%d' % (fn['file'], fn['l'])
  if this is not None:
    for r, m, nested in H.required(F, this):
      if (r, m) in H.DERIVED or H.covered(F, r, m, nested, hashed):
        c.ok('%s: %s' % (fn['n'], m))
      else:
        c.bad(loc, '%s: member %s does not reach the fingerprint with its content' % (fn['n'], m), '%s|%s' % (fn['n'], m))
    tail(c, F, fn, R, hv, H, this)
    return
  names = {f for f, k in stored if not f.startswith('#') and f in {p['n'] for p in fn['p']}}
  for f in sorted(names):
    c.count('parameters')
    if (cls, f) in NOT_IDENTITY or (fn['n'], f) in NOT_IDENTITY:
      c.ok()
      continue
    p = [p for p in fn['p'] if p['n'] == f][0]
    t = (p.get('ct') or '') + ' ' + p['t']
    if re.search(r'Private\w*Tag|ClassInfo|ExprOperatorTags', t):
      c.ok()
      continue
    if (f, 'val') in hashed or elements(F, H, cls, f, t, hashed):
      c.ok('%s: %s' % (fn['n'], f))
    else:
      c.bad(loc, '%s: parameter `%s` becomes part of the object but does not reach its fingerprint with its content: objects that differ in it only have equal fingerprints' % (fn['n'], f),
            '%s|%s' % (fn['n'], f))
  tail(c, F, fn, R, hv, H, None)


def tail(c, F, fn, R, hv, H, this):
  if not hv:
    return
  b = H.Body(Tail(c, fn['n']), F, fn, dict(R.env), this, fn['n'], False, hv)
  b.exits_fail = True
  lams = [x for x in walk_fn(fn) if x['k'] == 'Lambda' and any(y['k'] == 'Var' and y['d'] in hv for y in walk(x))]
  if lams:
    b.R.locals(lams[0]['body'])
  b.stmts([lams[0]['body'] if lams else fn['body']], [], [])
  b.c.close(b)


class Tail:
  """Violations of the last thing hashed are no ambiguity: the total length tells it."""

  def __init__(self, c, name):
    self.c, self.name, self.pend = c, name, []

  def ok(self, what=None):
    self.c.ok(what)

  def bad(self, where, what, key=None):
    self.pend.append((where, what, key))

  def close(self, b):
    last = max([e.node['l'] for e in b.all] or [0])
    for where, what, key in self.pend:
      l = int(where.rsplit(':', 1)[1])
      why = TOLD.get((self.name, l == last)) or TOLD.get(self.name)
      if l == last and 'hashed only' in what and '`' in what:
        self.c.ok()
      elif why:
        self.c.ok()
      else:
        self.c.bad(where, what, key)


def elements(F, H, cls, f, t, hashed):
  """The parts of the elements of a container are hashed one by one."""
  kinds = {k for g, k in hashed if g == f}
  if {'thru:first', 'thru:second'} <= kinds:
    return True
  if not any(k.startswith('thru') for k in kinds):
    return False
  names = set(re.findall(r'[A-Za-z_][\w:]*', t))
  recs = []
  for n in names:
    if n.startswith(('std::', 'absl::')):
      continue
    for k in (n, cls + '::' + n, 'arolla::' + n, 'arolla::expr::' + n):
      if k in F.records and F.records[k][0]['fields'] and '::'.join(k.split('::')[:1]) == 'arolla':
        recs.append(k)
        break
  recs = [r for r in recs if any(g in {m for _, m, _ in H.required(F, r)} for g, _ in hashed)]
  return bool(recs) and all(H.covered(F, r, m, nested, hashed) or (r, m) in NOT_IDENTITY for r in recs for _, m, nested in H.required(F, r))


def node(c, F, H):
  """Operator nodes hash an array of fingerprints."""
  for fn in F.functions:
    if not fn.get('body') or fn['file'].startswith('arolla/util/fingerprint') or fn['file'].endswith('_test.cc') or '/testing/' in fn['file']:
      continue
    calls = [n for n in walk(fn['body']) if n['k'] in CALLS and callee_short(n) == 'FingerprintOfBytes']
    if not calls:
      continue
    env = {p['d']: {(p['n'], 'val')} for p in fn['p'] if p['n']}
    R = H.Reader(F, fn, env)
    R.locals(fn['body'])
    for loop in walk(fn['body']):
      if loop['k'] == 'For' and loop.get('init') and loop['init']['k'] == 'Decl':
        for v in loop['init']['v']:
          env[v['d']] = {('#%s' % v['d'], 'val')}
    data = {r.get('d') for call in calls for r in walk(call['a'][0]) if r['k'] == 'Ref'}
    hashed, stored = set(), set()
    for n in walk(fn['body']):
      asg = (n['x'], n['y']) if n['k'] == 'Bin' and n['op'] == '=' else (n['a'][0], n['a'][1]) if n['k'] == 'OCall' and n.get('op') == '=' else None
      if asg is None:
        continue
      into = [x.get('d') for x in walk(asg[0]) if x['k'] == 'Ref']
      if set(into) & data:
        hashed |= R.of(asg[1])
      elif strip(asg[0])['k'] in ('Mem', 'DMem') and not any(y['k'] in CALLS and callee_short(y) == 'FingerprintOfBytes' for y in walk(asg[1])):
        stored |= R.of(asg[1])
    names = {f for f, _ in stored if not f.startswith('#') and f in {p['n'] for p in fn['p']}}
    c.count('fingerprint constructions')
    for f in sorted(names):
      c.count('parameters')
      kinds = {k for g, k in hashed if g == f}
      if 'val' in kinds or {'thru:qvalue', 'thru:qtype'} <= kinds:
        c.ok('%s: %s' % (fn['n'], f))
      else:
        c.bad('%s:%d' % (fn['file'], fn['l']), '%s: parameter `%s` becomes part of the node but does not reach its fingerprint: nodes that differ in it only have equal fingerprints' % (fn['n'], f),
              '%s|%s' % (fn['n'], f))
