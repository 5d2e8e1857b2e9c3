"""Helpers over the resolved syntax trees produced by tool/arx.cc."""

_CH_SKIP = {'k', 'l', 't'}
# child order = evaluation/source order
_ORDER = ['init', 'cv', 'cond', 'inc', 'ce', 'o', 'b', 'i', 'c', 'x', 'y', 'a', 'pa', 'e', 'lhs', 'rhs', 'v', 'var', 'range',
          'then', 'else', 'sub', 'body', 'h', 'caps']


def children(n):
  out = []
  for key in _ORDER:
    v = n.get(key)
    if isinstance(v, dict):
      if 'k' in v:
        out.append(v)
    elif isinstance(v, list):
      for x in v:
        if isinstance(x, dict):
          if 'k' in x:
            out.append(x)
          elif isinstance(x.get('init'), dict):   # lambda init-capture
            out.append(x['init'])
  return out


def walk(n, into_lambda=True):
  """Pre-order walk."""
  if not n:
    return
  stack = [n]
  while stack:
    x = stack.pop()
    yield x
    if x['k'] == 'Lambda' and not into_lambda and x is not n:
      for c in x['caps']:
        if isinstance(c.get('init'), dict):
          stack.append(c['init'])
      continue
    stack.extend(reversed(children(x)))


def walk_fn(fn, into_lambda=True):
  for i in fn.get('inits') or []:
    if i.get('e'):
      yield from walk(i['e'], into_lambda)
  if fn.get('body'):
    yield from walk(fn['body'], into_lambda)


def parents(root):
  """id(node) -> parent node."""
  p = {}
  stack = [root]
  while stack:
    x = stack.pop()
    for c in children(x):
      p[id(c)] = x
      stack.append(c)
  return p


CALLS = ('Call', 'MCall', 'OCall')


def is_call(n, *names):
  """Resolved (qualified) or unresolved callee name match on any of `names`."""
  if n['k'] not in CALLS:
    return False
  return callee_name(n) in names


def callee_name(n):
  """Qualified name of the callee where resolved, else the spelled name."""
  if n.get('fn'):
    return n['fn']
  ce = n.get('ce')
  if not ce:
    return n.get('m') or ''
  if ce['k'] == 'ULook':
    q = ce.get('qn') or []
    return q[0] if q else ce['n']
  if ce['k'] == 'DMem':
    return ce['m']
  if ce['k'] == 'Ref':
    return ce['n']
  if ce['k'] == 'DRef':
    return (ce.get('q') or '') + ce['n']
  if ce['k'] == 'Mem':
    return ce['mq']
  return ''


def short(n):
  return n.rsplit('::', 1)[-1]


def callee_short(n):
  return short(callee_name(n))


def callee_obj(n):
  """The object expression of a member call (resolved or dependent)."""
  if n['k'] == 'MCall':
    if n.get('o'):
      return n['o']
  ce = n.get('ce')
  if ce and ce['k'] in ('DMem', 'Mem'):
    return ce.get('b') or {'k': 'This', 'l': n['l'], 't': ''}
  return None


def is_move(n):
  """std::move(x), under casts."""
  while n and n['k'] == 'Cast':
    n = n['e']
  return bool(n) and n['k'] in CALLS and callee_name(n) in ('std::move', 'move')


def strip(n):
  """Drops casts, copies/moves and std::move/forward wrappers."""
  while n:
    if n['k'] == 'Cast':
      n = n['e']
    elif n['k'] == 'Ctor' and (n.get('copy') or n.get('move')) and len(n['a']) >= 1:
      n = n['a'][0]
    elif n['k'] in CALLS and callee_name(n) in ('std::move', 'std::forward', 'std::as_const', 'move', 'forward') and n['a']:
      n = n['a'][0]
    elif n['k'] == 'StmtExpr':
      b = n['body']
      if len(b['c']) == 1:
        n = b['c'][0]
      else:
        return n
    else:
      return n
  return n


def pp(n, depth=0):
  """A compact, canonical rendering, used in reports."""
  if n is None:
    return ''
  if depth > 12:
    return '...'
  k = n['k']
  r = lambda x: pp(x, depth + 1)
  if k in ('Int', 'Float'):
    return n['v']
  if k == 'Str':
    return '"%s"' % n['v']
  if k == 'Bool':
    return str(n['v']).lower()
  if k == 'Null_':
    return 'nullptr'
  if k == 'This':
    return 'this'
  if k == 'Ref':
    return short(n['n']) if n.get('dk') in ('parm', 'var', 'binding') else n['n']
  if k in ('Mem', 'DMem'):
    b = n.get('b')
    if b is None or b['k'] == 'This':
      return n['m']
    return r(b) + ('->' if n.get('arrow') else '.') + n['m']
  if k == 'ULook' or k == 'DRef':
    return (n.get('q') or '') + n['n']
  if k == 'Call':
    return (short(n['fn']) if n.get('fn') else r(n.get('ce'))) + '(' + ', '.join(map(r, n['a'])) + ')'
  if k == 'MCall':
    if n.get('ce'):
      return r(n['ce']) + '(' + ', '.join(map(r, n['a'])) + ')'
    o = n.get('o')
    return ('' if not o or o['k'] == 'This' else r(o) + '.') + n.get('m', '?') + '(' + ', '.join(map(r, n['a'])) + ')'
  if k == 'OCall':
    a = n['a']
    if n['op'] == '()':
      return r(a[0]) + '(' + ', '.join(map(r, a[1:])) + ')'
    if n['op'] == '[]':
      return r(a[0]) + '[' + r(a[1]) + ']'
    if n['op'] == '->':
      return r(a[0])
    if len(a) == 1:
      return n['op'] + r(a[0])
    return '(' + r(a[0]) + ' ' + n['op'] + ' ' + r(a[1]) + ')'
  if k == 'Bin':
    return '(' + r(n['x']) + ' ' + n['op'] + ' ' + r(n['y']) + ')'
  if k == 'Un':
    return n['op'] + r(n['e'])
  if k == 'Cond':
    return '(' + r(n['c']) + ' ? ' + r(n['x']) + ' : ' + r(n['y']) + ')'
  if k == 'Sub':
    return r(n['b']) + '[' + r(n['i']) + ']'
  if k == 'Cast':
    return r(n['e']) if n['sc'] == 'implicit' else n['t'] + '(' + r(n['e']) + ')'
  if k in ('Ctor', 'DCtor'):
    if k == 'Ctor' and (n.get('copy') or n.get('move')):
      return r(n['a'][0])
    return short(n['cls']) + '(' + ', '.join(map(r, n['a'])) + ')'
  if k == 'Init':
    return '{' + ', '.join(map(r, n['c'])) + '}'
  if k == 'Lambda':
    return '[...]{...}'
  if k == 'Return':
    return 'return ' + r(n.get('e'))
  return k


def where(fn, n=None):
  return '%s:%d' % (fn['file'], (n or fn)['l'])


def is_noreturn(n):
  return bool(n.get('noreturn'))
