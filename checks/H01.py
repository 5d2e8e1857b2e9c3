"""A fingerprint determines the object: every part of it is hashed, unambiguously."""
import os
import re
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import facts
import h01_ops
import report
from tree import CALLS, callee_name, callee_obj, callee_short, children, pp, short, strip, walk, walk_fn

RULE = ('information flow into FingerprintHasher: (A) every data member of a fingerprinted type reaches the hasher in a form that keeps its content, '
        '(B) whatever is hashed under a condition or in a loop is announced by something hashed before (count, discriminator, presence flag), '
        '(C) every constructor or factory parameter that becomes part of an operator or node also reaches its fingerprint, under a salt of its own')

# what a name tells about the content of the object it is asked of
SIZE = ('size', 'empty', 'rank', 'length', 'count')
NULL = ('has_value', 'operator bool', 'ok')
LOSSY = ('front', 'back', 'first', 'last', 'subspan', 'substr', 'subview', 'Slice', 'slice', 'child_size', 'parent_size', 'capacity', 'hash', 'StableHash', 'StableTypeHash',
         'PythonHash', 'contains', 'min', 'max', 'at', 'find', 'type', 'use_count', 'bit_count', 'PresentCount', 'is_full', 'is_const', 'IsAllMissing')
KEEP = ('value', 'get', 'raw_index', 'fingerprint', 'GetFingerprint', 'data', 'c_str', 'begin', 'end', 'cbegin', 'cend', 'operator*', 'operator->', 'operator[]', 'GetPointer', 'byte_offset',
        'second', 'first', 'index')
FRESH_NAMES = ('Combine', 'CombineSpan', 'CombineRawBytes')

# (record, member): not part of the identity of the object, and why
DERIVED = {
    ('arolla::SimpleBuffer', 'raw_buffer_'): 'keeps the memory of span_ alive',
    ('arolla::DecisionForest', 'required_qtypes_'): 'computed from trees_',
    ('arolla::DecisionForest', 'submodel_count_'): 'computed from trees_',
    ('arolla::DecisionForest', 'step_count_'): 'computed from trees_',
    ('arolla::DecisionForest', 'fingerprint_'): 'the result',
}
# types whose values are all equal, or that have no values at all
UNIT = {
    'arolla::UnspecifiedQType': 'a single value',
    'arolla::NothingQType': 'no values',
    'arolla::FingerprintHasherTraits<arolla::ScalarShape>': 'a single value',
    'arolla::FingerprintHasherTraits<arolla::OptionalScalarShape>': 'a single value',
    'arolla::FingerprintHasherTraits<arolla::ScalarToScalarEdge>': 'a single value',
    'arolla::FingerprintHasherTraits<std::monostate>': 'a single value',
}
# what identifies an object that is fingerprinted through a pointer to an abstract or foreign class
IDENTITY = {
    'DecisionForestPtr': {'fingerprint'},
    'ExprOperatorPtr': {'fingerprint'},
    'RegexPtr': {'pattern'},
    'CurvePtr': {'Type', 'ControlPoints'},
    'QTypePtr': set(),
}
ROOTS = ('ArollaFingerprint', 'CombineToFingerprintHasher', 'UnsafeCombineToFingerprintHasher')


def is_hasher(t):
  return bool(re.search(r'\bFingerprintHasher\b(?!Traits)', t or ''))


def weaken(rs, kind):
  return {(f, k if f.startswith('#') else kind) for f, k in rs}


class Reader:
  """Which parts of the subject an expression depends on: set of (member, kind).

  kind: 'val' the whole content, 'size', 'null', 'thru' (a part of it was taken), 'thru:<part>', 'cmp' anything lossy."""

  def __init__(self, F, fn, env, this=None, rec=None, depth=0):
    self.F, self.fn, self.env, self.this, self.rec, self.depth = F, fn, env, this, rec, depth

  def methods(self, rec, name):
    out, todo, seen = [], [rec], set()
    while todo:
      r = todo.pop()
      if r is None or r in seen:
        continue
      seen.add(r)
      out += [f for f in self.F.by_name.get(r + '::' + name, []) if f.get('body')]
      for rr in self.F.records.get(r, []):
        for b in rr.get('bases') or []:
          b = re.sub(r'<.*', '', b if isinstance(b, str) else b.get('n', ''))
          cand = [k for k in (b, 'arolla::' + b, r.rsplit('::', 1)[0] + '::' + b) if k in self.F.records]
          todo += cand[:1]
    return out

  def subj(self, e):
    """The record of which e is the subject itself, or None."""
    e = strip(e)
    while e:
      if e['k'] == 'Un' and e['op'] in ('*', '&'):
        e = strip(e['e'])
      elif e['k'] == 'OCall' and e.get('op') in ('->', '*') and len(e['a']) == 1:
        e = strip(e['a'][0])
        if not (e and e['k'] == 'Ref' and str(self.env.get(e.get('d'))).startswith('&')):
          return None
      else:
        break
    if e is None:
      return None
    if e['k'] == 'This':
      return self.this
    if e['k'] == 'Ref' and e.get('d') in self.env and isinstance(self.env[e['d']], str):
      return self.env[e['d']]
    return None

  def of(self, e):
    if e is None:
      return set()
    k = e['k']
    F = self.F
    s = self.subj(e)
    if s is not None:
      return {('*', 'val')}
    if k == 'Ref':
      v = self.env.get(e.get('d'))
      return set(v) if isinstance(v, (set, frozenset)) else set()
    if k in ('Int', 'Float', 'Bool', 'Str', 'Char', 'Null', 'Trait', 'Sizeof'):
      return set()
    if k == 'Lambda':
      return set()
    if k == 'Cast':
      r = self.of(e['e'])
      ck, sc = e.get('ck') or '', e.get('sc') or ''
      if ck in ('IntegralToBoolean', 'FloatingToBoolean', 'FloatingToIntegral'):
        return weaken(r, 'cmp')
      if ck == 'PointerToBoolean':
        return weaken(r, 'null')
      if ck == 'IntegralCast' and sc and width(e.get('ct') or e.get('t')) < width(e['e'].get('ct') or e['e'].get('t')):
        return weaken(r, 'cmp')
      return r
    if k in ('Mem', 'DMem'):
      b = e.get('b')
      name = e.get('m') or short(e.get('mq') or '')
      if b is None or b['k'] == 'This' or self.subj(b) is not None:
        if b is None or self.subj(b) is not None:
          return {(name, 'val')}
        return set()
      rb = self.of(b)
      if not rb:
        return set()
      if name in ('first', 'second'):
        return weaken(rb, 'thru:' + name)
      return weaken(rb, 'thru') | {(name, 'val')}
    if k == 'Cond':
      return weaken(self.of(e['c']), 'null' if self.nullcheck(e['c']) else 'cmp') | self.of(e['x']) | self.of(e['y'])
    if k == 'Un':
      r = self.of(e['e'])
      if e['op'] in ('!',):
        return {(f, kk if kk in ('size', 'null') or f.startswith('#') else ('null' if self.nullcheck(e) else 'cmp')) for f, kk in r}
      if e['op'] in ('*', '&', '+', '-', '++', '--'):
        return r
      return weaken(r, 'cmp') if e['op'] != '~' else r
    if k == 'Bin':
      op = e['op']
      if op in ('==', '!=') and any(nothing(x) for x in (e['x'], e['y'])):
        return weaken(self.of(e['x']) | self.of(e['y']), 'null')
      if op in ('<', '>', '<=', '>=', '==', '!=', '&&', '||'):
        r = self.of(e['x']) | self.of(e['y'])
        return {(f, kk if kk in ('size', 'null') or f.startswith('#') or kk == 'val' and op in ('<', '>', '<=', '>=', '!=') and self.counter(e) else 'cmp') for f, kk in r}
      if op in (',',):
        return self.of(e['y'])
      if op in ('=',):
        return self.of(e['y'])
      x, y = self.of(e['x']), self.of(e['y'])
      if op == '+':
        for p, q, rp, rq in ((e['x'], e['y'], x, y), (e['y'], e['x'], y, x)):
          if '*' in (p.get('t') or ''):
            return rp | {z for z in rq if z[0].startswith('#')}
      if op in ('*', '+', '-') and (not x or not y) and (x or y):
        return x or y if op != '*' else {(f, kk) for f, kk in (x or y)}
      return {(f, kk if kk in ('size',) or f.startswith('#') else 'cmp') for f, kk in x | y}
    if k in ('Sub', 'Index'):
      b = e.get('b') or e.get('x')
      i = e.get('i') or e.get('y')
      ri = self.of(i)
      return self.elem(self.of(b), ri)
    if k == 'OCall' and e.get('op') == '[]' or (k in CALLS and callee_short(e) == 'operator[]'):
      a = list(e.get('a') or [])
      o = callee_obj(e) or a[0]
      idx = a[-1]
      s = self.subj(o)
      if s:
        r = self.inline(s, 'operator[]', [idx])
        if r is not None:
          ri = self.of(idx)
          return r | {x for x in ri if x[0].startswith('#')} if any(f.startswith('#') for f, _ in ri) else weaken(r, 'cmp')
      return self.elem(self.of(o), self.of(idx))
    if k in CALLS:
      return self.call(e)
    if k == 'Ctor':
      r = set()
      for a in e['a']:
        r |= self.of(a)
      return r
    r = set()
    for c in children(e):
      r |= self.of(c)
    return r

  def elem(self, rb, ri):
    loops = {x for x in ri if x[0].startswith('#')}
    if loops:
      return rb | loops
    return weaken(rb, 'cmp')

  def nullcheck(self, c):
    c = strip(c)
    while c and c['k'] == 'Un' and c['op'] == '!':
      c = strip(c['e'])
    if c is None:
      return False
    if c['k'] in CALLS:
      return callee_short(c) in NULL
    if c['k'] == 'Cast':
      return c.get('ck') == 'PointerToBoolean'
    if c['k'] == 'Bin' and c['op'] in ('==', '!='):
      return any(nothing(x) for x in (c['x'], c['y']))
    if c['k'] == 'OCall' and c.get('op') in ('==', '!='):
      return any(nothing(x) for x in c['a'])
    return False

  def counter(self, e):
    """A comparison of a loop counter with a bound."""
    for x in (e['x'], e['y']):
      x = strip(x)
      if x and x['k'] == 'Ref' and any(f.startswith('#') for f, _ in (self.env.get(x.get('d')) or ()) if isinstance(self.env.get(x.get('d')), (set, frozenset))):
        return True
    return False

  def call(self, e):
    name = callee_short(e)
    o = callee_obj(e)
    args = e.get('a') or []
    if e['k'] == 'OCall' and not o and args:
      if e.get('op') in ('->', '*', '()'):
        return self.of(args[0])
      if e.get('op') in ('==', '!='):
        r = set().union(*[self.of(a) for a in args])
        nul = any(nothing(a) for a in args)
        return weaken(r, 'null' if nul else 'cmp')
      if e.get('op') in ('+', '-', '<', '>', '<=', '>=', '%', '/', '&', '|', '^'):
        return weaken(set().union(*[self.of(a) for a in args]), 'cmp')
    if o is not None:
      s = self.subj(o)
      if s is not None:
        r = self.inline(s, name, args)
        if r is not None:
          return r
        base = {('*', 'val')} if s not in IDENT_SUBJ else {(name, 'val')}
        if s in IDENT_SUBJ:
          return {(name, 'val')} if name not in NULL else {('*', 'null')}
      else:
        base = self.of(o)
        if is_hasher(o.get('t')) and not base:
          base = set()
      extra = {x for a in args for x in self.of(a) if x[0].startswith('#')}
      if name in SIZE:
        return weaken(base, 'size')
      if name in NULL:
        return weaken(base, 'null')
      if name in LOSSY and not extra:
        return weaken(base, 'cmp')
      if s is None and name not in KEEP and base and e.get('fn'):
        r2 = e['fn'].rsplit('::', 1)[0]
        if r2 in self.F.records and self.depth < 3:
          got = Reader(self.F, self.fn, {}, this=r2, depth=self.depth + 1).inline(r2, name, args)
          if got and not all(covered(self.F, r, m, x, got) for r, m, x in required(self.F, r2)):
            return weaken(base, 'thru') | weaken(base, 'thru:' + name) | extra
      if s is None and name not in KEEP and digest(e.get('ct') or e.get('t')):
        return weaken(base, 'cmp') | extra
      r = set(base) | extra
      for a in args:
        r |= self.of(a)
      return r
    if self.this is not None and callee_name(e).rsplit('::', 1)[0] == self.this:
      r = self.inline(self.this, name, args)
      if r is not None:
        return r
    r = set()
    for a in args:
      r |= self.of(a)
    if name in SIZE:
      return weaken(r, 'size')
    if name in LOSSY:
      return weaken(r, 'cmp')
    if len(args) >= 1 and self.depth < 5:
      f = self.F.callee(e, self.fn)
      if f is None and not e.get('u'):
        c = [g for g in self.F.by_name.get(callee_name(e), []) if g.get('body')]
        f = c[0] if len(c) == 1 else None
      if f is not None and f.get('body') and f['file'] == self.fn['file'] and '<' not in short(f['n']):
        return self.body(f, None, args)
    return r

  def inline(self, rec, name, args):
    if self.depth >= 5:
      return None
    ms = self.methods(rec, name)
    ms = [m for m in ms if len(m['p']) == len(args)] or ms
    if not ms:
      return None
    m = ms[0]
    if len(ms) > 1:
      cst = [x for x in ms if '&&' not in (x.get('q') or '')]
      m = (cst or ms)[0]
    return self.body(m, rec, args)

  def body(self, m, rec, args):
    env = {}
    for p, a in zip(m['p'], args):
      s = self.subj(a)
      env[p['d']] = s if s is not None else self.of(a)
    r = Reader(self.F, m, env, this=rec, depth=self.depth + 1)
    r.locals(m['body'])
    out = set()
    for n in walk(m['body'], into_lambda=False):
      if n['k'] == 'Return' and n.get('e'):
        out |= r.of(n['e'])
    if self.depth == 0:
      # what decides which of several results is returned
      pass
    return out

  def locals(self, body):
    """Flow-insensitive contents of the local variables."""
    for _ in range(3):
      for n in walk(body):
        if n['k'] == 'Var':
          self.bind(n)
        elif n['k'] == 'RangeFor':
          self.range(n)
        elif n['k'] == 'Bin' and n['op'] == '=' and strip(n['x']) and strip(n['x'])['k'] == 'Ref':
          self.add(strip(n['x']).get('d'), self.of(n['y']))
        elif n['k'] in CALLS:
          o = callee_obj(n)
          if o is not None and strip(o)['k'] == 'Ref' and callee_short(n) in ('push_back', 'emplace_back', 'insert', 'emplace', 'append', 'add', 'Add', 'Set', 'assign'):
            for a in n.get('a') or []:
              self.add(strip(o).get('d'), {x for x in self.of(a) if not x[0].startswith('#')})

  def add(self, d, r):
    if d is None or not r:
      return
    v = self.env.get(d)
    if isinstance(v, str):
      return
    self.env[d] = set(v or ()) | r

  def bind(self, n):
    if n.get('i') is None:
      return
    s = self.subj(n['i']) if '&' in (n.get('t') or '') or 'const' in (n.get('t') or '') else None
    if s is not None and not n.get('b'):
      self.env[n['d']] = s
      return
    r = self.of(n['i'])
    self.add(n['d'], r)
    for b in n.get('b') or []:
      self.add(b['d'], r)

  def range(self, n):
    rr = self.of(n['range'])
    v = n['var']
    m = ('#%s' % v['d'], 'val')
    self.env[v['d']] = set(rr) | {m}
    for i, b in enumerate(v.get('b') or []):
      x = weaken(rr, 'thru:' + ('first', 'second')[i]) if len(v['b']) == 2 else set(rr)
      self.env[b['d']] = x | {m}


def nothing(x):
  x = strip(x)
  return x is not None and (x['k'] == 'Null' or x['k'] == 'Ref' and short(x.get('n') or '') in ('nullopt', 'nullptr'))


def digest(t):
  """A type too small to hold the content of an object of class type."""
  t = (t or '').replace('const ', '').strip(' &')
  return bool(re.fullmatch(r'bool|(unsigned |signed )?(char|short|int|long|long long)|u?int\d+_t|size_t|float|double|QTypePtr|(arolla::)?QType( const)? \*', t))


IDENT_SUBJ = set('&' + k for k in IDENTITY)


def width(t):
  t = (t or '').replace('const', '').strip()
  for pat, w in ((r'bool', 1), (r'(signed |unsigned )?char|u?int8_t', 8), (r'(unsigned )?short|u?int16_t', 16), (r'(unsigned )?int|u?int32_t', 32)):
    if re.fullmatch(pat, t):
      return w
  return 64


class Emission:

  def __init__(self, node, reads, scalar=True):
    self.node, self.reads = node, frozenset(reads)


class Body:
  """Walks one fingerprint function, in order."""

  def __init__(self, c, F, fn, env, this, where, free=False, hashers=()):
    self.c, self.F, self.fn = c, F, fn
    self.R = Reader(F, fn, env, this=this)
    self.hashers = set(hashers)
    self.where = where
    self.free = free            # conditions on the type rather than the value
    self.all = []
    self.depth = 0
    self.raw = False
    self.iters = []
    self.exits_fail = False
    for n in walk(fn['body']):
      if n['k'] == 'Var' and is_hasher(n.get('t')):
        self.hashers.add(n['d'])
    self.R.locals(fn['body'])

  def is_h(self, e):
    e = strip(e)
    while e:
      if e['k'] == 'Un' and e['op'] in ('*', '&'):
        e = strip(e['e'])
      elif e['k'] in CALLS and callee_short(e) in FRESH_NAMES:
        e = strip(callee_obj(e))
      else:
        break
    if e is None:
      return False
    return e['k'] == 'Ref' and e.get('d') in self.hashers

  def at(self, n):
    return '%s:%d' % (self.fn['file'], n['l'])

  # --- emissions of one expression, in order
  def expr(self, e, E, conds):
    if e is None:
      return E
    for n in self.order(e):
      name = callee_short(n)
      args = n.get('a') or []
      o = callee_obj(n)
      if o is not None and self.is_h(o) and name in FRESH_NAMES:
        if name == 'CombineRawBytes':
          self.raw = True
          sz = self.R.of(args[1])
          data = self.R.of(args[0])
          el = elem_type(args[0])
          of = [x['of'] for x in walk(args[1]) if x['k'] == 'Sizeof']
          z = strip(args[1])
          if el and sz and (of and plain(of[0]) != el or not of and z is not None and z['k'] in CALLS and not re.fullmatch(r'(unsigned |signed )?char|std::byte|u?int8_t', el)):
            self.c.bad(self.at(n), '%s: the number of bytes hashed (%s) is not the number of elements times sizeof(%s)' % (self.where, pp(args[1])[:60], el))
          if sz and not self.known(sz, E):
            self.c.bad(self.at(n), '%s: bytes of a length that was not hashed before' % self.where)
          else:
            self.c.ok()
          E = self.emit(n, data | sz, E, conds)
          continue
        for a in args:
          a0 = strip(a)
          if a0 is not None and a0['k'] == 'Cond':
            d = [strip(x) for x in (a0['x'], a0['y'])]
            fp = 'Fingerprint' in (a0.get('t') or '')
            if not (fp and any(x is not None and x['k'] in ('Init', 'Cast', 'Ctor') and not self.R.of(x) for x in d)) and not self.known(self.R.of(a0['c']), E):
              self.c.bad(self.at(n), '%s: which of two values is hashed (%s) is not hashed itself' % (self.where, pp(a0['c'])[:80]))
          E = self.emit(n, self.R.of(a), E, conds, const=const_of(a))
        continue
      hs = [i for i, a in enumerate(args) if self.is_h(a)]
      if hs and name not in ('move', 'forward', 'Finish'):
        r = set()
        if o is not None:
          # a type that knows how to hash its values is not hashed itself
          r |= weaken(self.R.of(o), 'cmp') if name == 'UnsafeCombineToFingerprintHasher' else self.R.of(o)
        for i, a in enumerate(args):
          if i not in hs:
            r |= self.R.of(a)
        f = self.F.callee(n, self.fn)
        if f is not None and f.get('body') and short(f['n']) not in ROOTS and short(f['n']) != 'operator()' and f['file'] == self.fn['file'] and self.depth < 3:
          E = self.into(f, n, args, hs, E, conds)
          continue
        E = self.emit(n, r, E, conds)
    return E

  def into(self, f, n, args, hs, E, conds):
    env = {}
    hashers = set()
    for i, p in enumerate(f['p'][:len(args)]):
      if i in hs:
        hashers.add(p['d'])
        continue
      s = self.R.subj(args[i])
      env[p['d']] = s if s is not None else self.R.of(args[i])
    b = Body(self.c, self.F, f, env, self.R.this if f['n'].rsplit('::', 1)[0] == self.fn['n'].rsplit('::', 1)[0] else None, self.where, self.free, hashers)
    b.depth = self.depth + 1
    b.all = self.all
    E2, _ = b.stmts([f['body']], E, conds)
    return E2

  def order(self, e):
    out = []

    def rec(x):
      if x['k'] == 'Lambda':
        return
      for c in children(x):
        rec(c)
      if x['k'] in CALLS:
        out.append(x)
    rec(e)
    return out

  def emit(self, n, reads, E, conds, const=None):
    for c, cr, E0 in conds:
      if not self.free and not self.known(cr, E0):
        self.c.bad(self.at(n), '%s: hashed only if/while `%s`, but nothing hashed before tells whether (or how often) that is so' % (self.where, pp(c)[:90]))
      else:
        self.c.ok()
    for m in self.iters:
      if m not in reads and reads and const is None:
        self.c.bad(self.at(n), '%s: the same value is hashed in every iteration' % self.where)
    em = Emission(n, reads)
    em.const = const
    self.all.append(em)
    return E + [em]

  def known(self, cond, E):
    """The outcome of a condition that reads `cond` follows from what was hashed before."""
    loop = {x for x in cond if x[0].startswith('#')}
    fields = {x for x in cond if not x[0].startswith('#')}
    if not fields:
      return True
    if loop and not all(k == 'size' for _, k in fields) and not (len(loop) and all(self.has(E, f, k) for f, k in fields) and self.bound(cond)):
      names = {f for f, _ in fields}
      return any({f for f, _ in em.reads if not f.startswith('#')} >= names and loop <= em.reads for em in E)
    return all(self.has(E, f, k) for f, k in fields)

  def bound(self, cond):
    return getattr(self, '_bound', False)

  def has(self, E, f, k):
    for em in E:
      if any(x.startswith('#') for x, _ in em.reads):
        continue
      for g, kk in em.reads:
        if g == f and (kk == k or kk == 'val'):
          return True
        if g == '*' and kk == 'val':
          return True
    return False

  # --- statements
  def stmts(self, body, E, conds):
    """-> (hashed before the next statement, conditions that hold there)."""
    for i, s in enumerate(body):
      if s['k'] == 'If' and not s.get('else') and leaves(s.get('then')) and body[i + 1:]:
        return self.st(dict(s, **{'else': {'k': 'Block', 'l': s['l'], 't': '', 'c': body[i + 1:]}}), E, conds)
      E, conds = self.st(s, E, conds)
    return E, conds

  def st(self, s, E, conds):
    k = s['k']
    if k in ('Block', 'StmtExpr'):
      return self.stmts(s['c'] if k == 'Block' else s['body']['c'], E, conds)
    if k == 'Decl':
      for v in s['v']:
        E = self.expr(v.get('i'), E, conds)
      return E, conds
    if k == 'If':
      if s.get('init'):
        E, conds = self.st(s['init'], E, conds)
      if s.get('cv'):
        E = self.expr(s['cv'].get('i'), E, conds)
      c = s['cond']
      E = self.expr(c, E, conds)
      if s.get('cx'):       # if constexpr: a condition on types
        cr = set()
      else:
        cr = self.R.of(c)
      item = (c, frozenset(cr), list(E))
      n0 = len(self.all)
      if self.exits_fail and (leaves(s.get('then')) and not self.hashes(s['then']) or leaves(s.get('else')) and not self.hashes(s['else'])):
        item = (c, frozenset(), list(E))
      if self.discriminated(s):
        em = Emission(s, {(f, 'val') for f, _ in cr})
        self.all.append(em)
        E = E + [em]
        item = (c, frozenset(), list(E))
      Et, _ = self.st(s['then'], E, conds + [item]) if s.get('then') else (E, conds)
      Ee, _ = self.st(s['else'], E, conds + [item]) if s.get('else') else (E, conds)
      lt, le = leaves(s.get('then')), leaves(s.get('else'))
      if self.exits_fail:
        # leaving without a fingerprint: nothing was built
        if lt and len(Et) == len(E):
          return Ee, conds
        if le and len(Ee) == len(E):
          return Et, conds
      if lt and le:
        return E, conds + [item]
      if lt:
        return Ee, conds + [item]
      if le:
        return Et, conds + [item]
      return [x for x in Et if x in Ee], conds
    if k in ('For', 'While', 'Do', 'RangeFor'):
      outer = list(E)
      if k == 'RangeFor':
        E = self.expr(s['range'], E, conds)
        rr = self.R.of(s['range'])
        cr = {(f, 'size') for f, _ in rr if not f.startswith('#')}
        lv = {x for x in rr if x[0].startswith('#')}
        item = (s['range'], frozenset(cr | lv), list(E))
        self.iters.append(('#%s' % s['var']['d'], 'val'))
        self.st(s['body'], E, conds + [item])
        self.iters.pop()
      else:
        n0 = len(self.all)
        if s.get('init'):
          E, conds = self.st(s['init'], E, conds) if s['init']['k'] == 'Decl' else (self.expr(s['init'], E, conds), conds)
          for v in (s['init'].get('v') or []):
            self.R.env[v['d']] = {('#%s' % v['d'], 'val')}
        c = s.get('cond')
        cr = {x for x in self.R.of(c) if not x[0].startswith('#')} if c else set()
        item = (c or s, frozenset(cr), list(E))
        self.R.locals(s['body'])
        mark = [('#%s' % v['d'], 'val') for v in (s['init'].get('v') or [])[:1]] if s.get('init') and s['init']['k'] == 'Decl' else []
        self.iters += mark
        self.st(s['body'], E, conds + [item])
        del self.iters[len(self.iters) - len(mark):]
        if len(self.all) > n0:
          self.whole(s)
      return outer, conds
    if k == 'Switch':
      E = self.expr(s['cond'], E, conds)
      item = (s['cond'], frozenset({(f, 'val' if kk == 'val' else kk) for f, kk in self.R.of(s['cond'])}), list(E))
      self.st(s['body'], E, conds + [item])
      return E, conds
    if k in ('Case', 'Default', 'Label'):
      return self.st(s['sub'], E, conds) if s.get('sub') else (E, conds)
    if k == 'Return':
      return self.expr(s.get('e'), E, conds), conds
    if k in ('Break', 'Continue', 'Nop', 'Null'):
      return E, conds
    return self.expr(s, E, conds), conds

  def hashes(self, s):
    for n in self.order(s):
      o = callee_obj(n)
      if o is not None and self.is_h(o) and callee_short(n) in FRESH_NAMES:
        return True
    return False

  def discriminated(self, s):
    """Both branches start by hashing different constants."""
    if not s.get('else'):
      return False
    a, b = self.first(s['then']), self.first(s['else'])
    return a is not None and b is not None and a != b

  def first(self, s):
    for n in self.order(s):
      if n['k'] in CALLS and callee_short(n) == 'Combine' and callee_obj(n) is not None and self.is_h(callee_obj(n)) and n.get('a'):
        return const_of(n['a'][0])
    return None

  def whole(self, s):
    """A counting loop that hashes elements visits all of them."""
    init = s.get('init')
    c = strip(s['cond']) if s.get('cond') else None
    if not init or init['k'] != 'Decl' or not c or c['k'] != 'Bin':
      return
    v = init['v'][0]
    i0 = strip(v.get('i')) if v.get('i') else None
    if i0 is not None and i0['k'] == 'Int' and str(i0.get('v')) != '0' and not any(f.startswith('#') is False for f, _ in self.R.of(v['i'])):
      if not any(x['k'] == 'Un' and x['op'] == '--' for x in walk(s.get('inc') or s['body'])):
        self.c.bad(self.at(s), '%s: the loop that hashes the elements starts at %s' % (self.where, i0.get('v')))
        return
    if c['op'] in ('<', '!=', '<='):
      b = strip(c['y'])
      if b is not None and b['k'] == 'Bin' and b['op'] in ('-', '/', '>>'):
        self.c.bad(self.at(s), '%s: the loop that hashes the elements stops at %s' % (self.where, pp(b)[:60]))
        return
    inc = s.get('inc')
    if inc is not None and inc['k'] == 'Bin' and inc['op'] == '+=' and not (strip(inc['y'])['k'] == 'Int' and str(strip(inc['y'])['v']) == '1'):
      self.c.bad(self.at(s), '%s: the loop that hashes the elements advances by %s' % (self.where, pp(inc['y'])[:40]))
      return
    self.c.ok()


def const_of(a):
  a = strip(a)
  while a is not None and a['k'] in ('Ctor', 'Cast') and len(a.get('a') or [a.get('e')]) == 1:
    a = strip((a.get('a') or [a.get('e')])[0])
  if a is not None and a['k'] in ('Bool', 'Int', 'Str', 'Char'):
    return (a['k'], a.get('v'))
  return None


def plain(t):
  return re.sub(r'\bconst\b', '', t or '').strip()


def elem_type(a):
  a = strip(a)
  if a is None:
    return None
  m = re.search(r'<([^<>]*)>::(data|begin)$', a.get('fn') or '') if a['k'] in CALLS else None
  if m:
    return plain(m.group(1).split(',')[0])
  return None


def leaves(s):
  if s is None:
    return False
  if s['k'] == 'Block':
    return any(leaves(x) for x in s['c'])
  if s['k'] == 'If':
    return leaves(s.get('then')) and leaves(s.get('else'))
  if s['k'] in ('Return', 'Continue', 'Break'):
    return True
  return bool(s.get('noreturn'))


def rec_of_type(F, t):
  t = re.sub(r'\bconst\b|&|\*', '', t or '').strip()
  t = re.sub(r'<.*', '', t).strip()
  for c in (t, 'arolla::' + t, 'arolla::expr::' + t, 'arolla::pwlcurve::' + t):
    if c in F.records:
      return c
  return None


def required(F, rec):
  """-> list of (member, nested record or None), base classes included."""
  out = []
  todo, seen = [rec], set()
  while todo:
    r = todo.pop()
    if r in seen:
      continue
    seen.add(r)
    for rr in F.records.get(r, [])[:1]:
      for f in rr['fields']:
        if not f['n']:
          continue
        t = (f.get('ct') or '') + ' ' + (f.get('t') or '')
        nested = None
        for k in F.records:
          if k.startswith(r + '::') and re.search(r'\b%s\b' % re.escape(short(k)), t) and F.records[k][0]['fields']:
            nested = k
        if nested is None:
          for k in re.findall(r'arolla::[\w:]+', f.get('ct') or ''):
            if k in F.records and k != r and F.records[k][0]['fields'] and 'Buffer' not in k:
              nested = '~' + k
        out.append((r, f['n'], nested))
      for b in rr.get('bases') or []:
        b = re.sub(r'<.*', '', b if isinstance(b, str) else b.get('n', ''))
        if short(b) in ('RefcountedBase', 'enable_shared_from_this', 'FingerprintHasherTraits'):
          continue
        for cnd in (b, 'arolla::' + b, r.rsplit('::', 1)[0] + '::' + b):
          if cnd in F.records:
            todo.append(cnd)
            break
  return out


def covered(F, rec, name, nested, got):
  kinds = {k for f, k in got if f == name}
  if 'val' in kinds or ('*', 'val') in got:
    return True
  if nested and nested[0] == '~':
    if {'thru:first', 'thru:second'} <= kinds:
      return True
    nested = nested[1:]
  if nested:
    return any(k.startswith('thru') for k in kinds) and all(covered(F, nested, n, x, got) for _, n, x in required(F, nested))
  return {'thru:first', 'thru:second'} <= kinds


def types(c, F):
  seen = set()
  for fn in F.functions:
    if not fn.get('body') or '/testing/' in fn['file'] or fn['file'].startswith('arolla/util/fingerprint'):
      continue
    hs = [p for p in fn['p'] if re.search(r'FingerprintHasher \*', p.get('t') or '')]
    if not hs:
      continue
    cls = fn['n'].rsplit('::', 1)[0]
    name = short(fn['n'])
    if not (name in ROOTS or (name == 'operator()' and 'FingerprintHasherTraits' in cls)):
      continue
    key = (fn['file'], fn['n'])
    if key in seen:
      continue
    seen.add(key)
    c.count('fingerprint functions')
    where = re.sub(r'type-parameter-\d-\d', 'T', fn['n'])
    if cls in UNIT:
      c.ok()
      continue
    env = {}
    this = None
    rec = None
    free = False
    ident = None
    if name == 'UnsafeCombineToFingerprintHasher':
      src = [p for p in fn['p'] if 'void' in (p.get('t') or '')]
      c.need(src, '%s: no source parameter' % where)
      env[src[0]['d']] = {('source', 'val')}
      free = True
    elif name == 'operator()':
      p = [p for p in fn['p'] if p not in hs]
      c.need(p, '%s: no value parameter' % where)
      p = p[0]
      t = re.sub(r'\bconst\b|&', '', p['t']).strip()
      if short(t) in IDENTITY:
        ident = short(t)
        env[p['d']] = '&' + ident
      else:
        rec = rec_of_type(F, p.get('ct') or '') or rec_of_type(F, t)
        m = re.search(r'Traits<(.*)>$', cls)
        if rec is None and m:
          rec = rec_of_type(F, m.group(1))
        if rec is None:
          c.undecided('%s:%d' % (fn['file'], fn['l']), 'fingerprint of an unknown type %s' % p['t'])
          continue
        env[p['d']] = rec
    else:
      this = rec = re.sub(r'<.*', '', cls)
      if rec not in F.records and cls in F.records:
        this = rec = cls
    b = Body(c, F, fn, env, this, where, free, [p['d'] for p in hs])
    b.stmts([fn['body']], [], [])
    got = set()
    for em in b.all:
      got |= em.reads
    loc = '%s:%d' % (fn['file'], fn['l'])
    if name == 'UnsafeCombineToFingerprintHasher':
      if not any(f == 'source' and k in ('val',) for f, k in got):
        c.bad(loc, '%s: the value is not hashed' % where)
      else:
        c.ok('%s: the value' % where)
      continue
    if ident is not None:
      want = IDENTITY[ident]
      have = {f for f, k in got if k == 'val'} | ({'*'} if ('*', 'val') in got else set())
      if {'x', 'y'} <= have and any(f == 'ControlPoints' and k.startswith('thru') for f, k in got):
        have.add('ControlPoints')     # the points, member by member
      miss = [w for w in sorted(want) if w not in have and '*' not in have]
      if not want and '*' not in have:
        miss = ['the pointer']
      if miss:
        c.bad(loc, '%s: %s does not reach the hasher' % (where, ', '.join(miss)))
      else:
        c.ok('%s: %s' % (where, ', '.join(sorted(want)) or 'the pointer'))
      continue
    req = required(F, rec)
    c.need(req or ('*', 'val') in got or F.records.get(rec), '%s: no members found for %s' % (where, rec))
    for r, m, nested in req:
      c.count('members')
      if (r, m) in DERIVED:
        c.ok()
      elif covered(F, r, m, nested, got):
        c.ok('%s: %s' % (where, m))
      else:
        c.bad(loc, '%s: member %s does not reach the hasher with its content: two objects that differ in it only have equal fingerprints' % (where, m),
              '%s|%s' % (where, m))


def run(c):
  F = facts.load(facts.ALL)
  types(c, F)
  h01_ops.run(c, F, sys.modules[__name__])
  c.need(c.counts.get('fingerprint functions', 0) >= 15, 'fingerprint functions not found')


if __name__ == '__main__':
  report.main('H01', RULE, run)
