"""Which mutexes are held at every expression of every function."""
import os
import re

import facts
import guard
from flow import Flow
from tree import CALLS, callee_name, callee_obj, callee_short, pp, strip, walk, walk_fn

MUTEX = re.compile(r'^(mutable )?((absl::)(debian3::|lts_\d+::)?Mutex|std::(shared_)?mutex|std::recursive_mutex)$')
SCOPED = {'MutexLock': 'w', 'WriterMutexLock': 'w', 'ReaderMutexLock': 'r', 'ReleasableMutexLock': 'w', 'lock_guard': 'w', 'unique_lock': 'w',
          'scoped_lock': 'w', 'shared_lock': 'r', 'MutexLockMaybe': 'w'}
ACQ = {'Lock': 'w', 'lock': 'w', 'WriterLock': 'w', 'ReaderLock': 'r', 'lock_shared': 'r'}
REL = {'Unlock', 'unlock', 'WriterUnlock', 'ReaderUnlock', 'unlock_shared', 'Release'}
# members of library containers and values that do not modify them
READS = {'find', 'contains', 'count', 'size', 'empty', 'at', 'begin', 'end', 'cbegin', 'cend', 'rbegin', 'rend', 'ok', 'get', 'has_value', 'value',
         'capacity', 'bucket_count', 'lower_bound', 'upper_bound', 'equal_range', 'front', 'back', 'data', 'load', 'c_str', 'substr', 'length',
         'operator bool', 'message', 'code', 'hash_function', 'key_eq', 'test'}


def is_mutex(t):
  return bool(MUTEX.match((t or '').replace('class ', '').strip()))


def is_atomic(t):
  return bool(re.match(r'^(mutable )?(const )?(std::)?(atomic<|atomic_flag|atomic_|once_flag|absl::once_flag|Notification|absl::Notification)', t or '')) or 'once_flag' in (t or '')


def scoped_kind(t):
  t = re.sub(r'<.*', '', (t or '')).replace('const ', '').strip()
  return SCOPED.get(t.rsplit('::', 1)[-1])


_lines = {}


def _src(file):
  if file not in _lines:
    with open(os.path.join(facts.REPO, file), errors='replace') as f:
      _lines[file] = f.read().split('\n')
  return _lines[file]


def annotation(file, line):
  """GUARDED_BY annotation of the member declared at `line`."""
  src = _src(file)
  text = ''
  for i in range(line - 1, min(line + 6, len(src))):
    text += ' ' + re.sub(r'//.*', '', src[i])
    if ';' in text:
      break
  m = re.search(r'GUARDED_BY\(\s*([\w.>-]+)\s*\)', text.split(';')[0])
  return m.group(1) if m else None


class Path:
  """Canonical names of objects within one function."""

  def __init__(self):
    self.alias = {}
    self.fresh = set()
    self.params = set()

  def of(self, e):
    e = strip(e)
    if e is None:
      return None
    k = e['k']
    if k == 'This':
      return 'this'
    if k == 'Ref':
      if e.get('d') is not None and e.get('dk') in ('var', 'parm', 'binding'):
        return self.alias.get(e['d'], '#%s' % e['d'])
      return 'g:' + e['n']
    if k in ('Mem', 'DMem'):
      b = e.get('b')
      p = 'this' if b is None or b['k'] == 'This' else self.of(b)
      return None if p is None else p + '.' + e['m']
    if k == 'Un' and e['op'] in ('*', '&'):
      return self.of(e['e'])
    if k == 'OCall' and e['op'] in ('->', '*') and len(e['a']) == 1:
      return self.of(e['a'][0])
    if k in CALLS:
      o = callee_obj(e)
      if o is not None and callee_short(e) in ('get', 'operator->', 'operator*', 'value'):
        return self.of(o)
      if o is None and not e['a']:
        return 'call:' + callee_name(e)
    if k == 'Expr' and len(e.get('c') or []) == 1:
      return self.of(e['c'][0])
    return None


class Held(Flow):
  """State: frozenset of ('held', mutex path, mode, lock var or None)."""
  LIMIT = 3000

  def __init__(self, fn, initial=()):
    self.fn = fn
    self.p = Path()
    self.initial = frozenset(initial)
    self.lams = []
    for q in fn.get('p') or []:
      self.p.params.add(q.get('d'))

  # -- client hook: called once for each expression and state
  def at(self, n, s):
    pass

  def entry(self, body):
    return self.run(body, {self.initial})

  def acquire(self, s, path, mode, var, n):
    self.on_acquire(n, path, mode, s)
    return s | {('held', path, mode, var)}

  def on_acquire(self, n, path, mode, s):
    pass

  def expr(self, n, s):
    k = n['k']
    if k in CALLS:
      m = callee_short(n)
      o = callee_obj(n)
      if o is not None and (m in ACQ or m in REL):
        so = strip(o)
        t = so.get('t') or ''
        if is_mutex(t.replace('*', '').replace('&', '').replace('const ', '').strip()):
          p = self.p.of(so)
          if m in ACQ:
            return (self.acquire(s, p, ACQ[m], None, n),)
          return (frozenset(x for x in s if not (x[0] == 'held' and x[1] == p)),)
        if scoped_kind(t) and so['k'] == 'Ref':
          if m in REL:
            return (frozenset(('off',) + x[1:] if x[0] == 'held' and x[3] == so.get('d') else x for x in s),)
          return (frozenset(('held',) + x[1:] if x[0] == 'off' and x[3] == so.get('d') else x for x in s),)
    self.at(n, s)
    return (s,)

  def declare(self, v, s):
    mode = scoped_kind(v.get('t'))
    i = v.get('i')
    if mode and i is not None:
      a = None
      for x in walk(i):
        if x is i and x['k'] in ('Ctor', 'DCtor'):
          a = x['a'][0] if x['a'] else None
          break
        if x['k'] == 'Expr' and x.get('c'):
          a = x['c'][0]
          break
        if x['k'] in ('Init',) and x.get('c'):
          a = x['c'][0]
          break
      p = self.p.of(a) if a is not None else None
      return (self.acquire(s, p, mode, v['d'], v),)
    if i is not None and (v.get('t') or '').rstrip().endswith(('&', '*', '*const', '* const')):
      p = self.p.of(i)
      if p is not None:
        self.p.alias[v['d']] = p
    elif v.get('d') is not None and not v.get('sl'):
      self.p.fresh.add('#%s' % v['d'])
    return (s,)

  def scope_end(self, vs, s):
    ds = {v.get('d') for v in vs if scoped_kind(v.get('t'))}
    if ds:
      s = frozenset(x for x in s if not (x[0] in ('held', 'off') and x[3] in ds))
    return (s,)

  def lam(self, n, s):
    self.lams.append((n, s))
    return (s,)


def held(s):
  return [(x[1], x[2]) for x in s if x[0] == 'held']


def class_of(fn, F):
  """The record a member function belongs to."""
  n = fn['n'].rsplit('::', 1)[0]
  return F.rec(n)
