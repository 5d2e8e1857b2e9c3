"""Strings made of characters and opaque names for the abstract interpreter.

A string is Const(('str', items)); an item is a one-character str, an Aff (an
unknown character) or a Tok: a name that is not empty, has no '/', begins with
none of BEGIN and ends with none of END. Different Toks are different names,
ordered as written. Characters of the string value P are at (('chars', P), idx(i)),
and a character of a string variable L is L+(('ch', i),). Whatever depends on
what a name is made of is Unsupported.
"""
import absint
from absint import Aff, Ptr, Ref, Obj, Const, Top, Fn, Unsupported
import containers
from containers import K, idx, unidx
import tree as T

STR = ('std::basic_string', 'std::basic_string_view', 'absl::string_view', 'std::__cxx11::basic_string', 'absl::AlphaNum')
M = 2**64
BEGIN = ('Ext::', '/')
END = ('[:]', '@size', '/')


class Name(str):
  """An opaque name."""
  __slots__ = ()

  def __eq__(self, o):
    return isinstance(o, Name) and str.__eq__(self, o)

  def __ne__(self, o):
    return not self == o

  def __hash__(self):
    return hash(('name', str(self)))


def S(items):
  return Const(('str', tuple(items)))


def is_str(v):
  return isinstance(v, Const) and isinstance(v.v, tuple) and len(v.v) == 2 and v.v[0] == 'str'


def size(items):
  return Aff({}, 0).add(K(sum(1 for x in items if not isinstance(x, Name)))) if not any(isinstance(x, Name) for x in items) else _size(items)


def _size(items):
  c, k = {}, 0
  for x in items:
    if isinstance(x, Name):
      c['len_' + x] = c.get('len_' + x, 0) + 1
    else:
      k += 1
  return Aff(c, k)


def num(v):
  """A constant size modulo 2^64, or None."""
  k = v.const() if isinstance(v, Aff) else None
  return None if k is None else k % M


def sure(items):
  """The items, if every one is a known character."""
  if all(isinstance(x, str) and not isinstance(x, Name) for x in items):
    return ''.join(items)
  return None


def segs(items):
  out = [[]]
  for x in items:
    if x == '/' and not isinstance(x, Name):
      out.append([])
    else:
      out[-1].append(x)
  return out


def seg_cmp(a, b):
  """-1, 0, 1 for two segments; None if that depends on what names are."""
  i = 0
  while i < len(a) and i < len(b) and type(a[i]) is type(b[i]) and a[i] == b[i]:
    i += 1
  a, b = a[i:], b[i:]
  if not a or not b:
    return 0 if not a and not b else -1 if not a else 1
  if isinstance(a[0], Name) and isinstance(b[0], Name) and len(a) == 1 and len(b) == 1:
    return -1 if str(a[0]) < str(b[0]) else 1
  if all(isinstance(x[0], str) and not isinstance(x[0], Name) for x in (a, b)):
    return -1 if a[0] < b[0] else 1
  return None


def same(a, b):
  """Equality of two texts, or None."""
  if list(a) == list(b):
    return True
  x, y = segs(a), segs(b)
  if len(x) != len(y):
    return False if not any(isinstance(i, Aff) for i in list(a) + list(b)) else None
  r = True
  for p, q in zip(x, y):
    while p and q and type(p[-1]) is type(q[-1]) and p[-1] == q[-1]:
      p, q = p[:-1], q[:-1]
    c = seg_cmp(p, q)
    if c is None:
      r = None
    elif c:
      return False
  return r


def begins(a, p):
  for i, ch in enumerate(p):
    if i >= len(a):
      return False
    if isinstance(a[i], Name):
      rest = p[i:]
      if any(rest.startswith(b) for b in BEGIN):
        return False
      return ('begins', rest)
    if isinstance(a[i], Aff):
      raise Unsupported('prefix of unknown characters')
    if a[i] != ch:
      return False
  return True


def ends(a, p):
  for i, ch in enumerate(reversed(p)):
    if i >= len(a):
      return False
    x = a[-1 - i]
    if isinstance(x, Name):
      rest = p[:len(p) - i]
      if any(rest.endswith(e) for e in END):
        return False
      return ('ends', rest)
    if isinstance(x, Aff):
      raise Unsupported('suffix of unknown characters')
    if x != ch:
      return False
  return True


def transformed(name, how):
  """A name under a transformation of its characters; those used here commute."""
  base, *hows = str(name).split('|')
  return Name('|'.join([base] + sorted(set(hows) | {how})))


def bare(t):
  return t.replace('const ', '').rstrip('& ').split('::')[-1]


class Strings:
  """Mixin, before Containers in the MRO."""

  # Whether an opaque name begins or ends with some other text: both happen.
  # The clients run a case with either answer.
  asked = None
  answer = False

  def sure_hit(self, r, strip=False):
    if isinstance(r, bool):
      return r
    if strip or self.asked is None:
      raise Unsupported('whether a name %s with %r' % r)
    self.asked.add(r)
    return self.answer

  # --- values ---
  def text(self, v, st, char=False):
    """The items of a string, or of a number (a character, with `char`)."""
    if isinstance(v, Ptr) and v.loc is not None:
      s = self.pointed(v)
      if s is not None:
        return s
      v = Ref(v.loc)
    if isinstance(v, Ref):
      v = self.load(v, st)
    if v == Const(('moved',)):
      self.event(st, 'use-after-move', 0, 'a string')
      return ()
    if is_str(v):
      return tuple(v.v[1])
    if isinstance(v, Aff):
      if char:
        return (chr(v.const() % 256),) if v.const() is not None else (v,)
      if v.const() is not None:
        return tuple(str(v.const()))
    raise Unsupported('text %r' % (v,))

  def pointed(self, p):
    """The text from the pointer to the end of the value it points into."""
    if p.loc and isinstance(p.loc[0], tuple) and p.loc[0][0] == 'chars':
      return self.split(p.loc[0][1], unidx(p.loc[1]))[1]
    return None

  def global_text(self, name):
    g = [x for x in self.F.globals if x['n'] == name and x.get('i')]
    if len(g) != 1:
      return None
    lits = [x for x in T.walk(g[0]['i']) if x['k'] == 'Str']
    return tuple(lits[0]['v']) if len(lits) == 1 else None

  def load_missing(self, loc, t, st):
    if loc and loc[0] == 'G' and 'string' in (self.gtype(loc[1]) or ''):
      s = self.global_text(loc[1])
      if s is not None:
        return S(s)
    return super().load_missing(loc, t, st)

  def gtype(self, name):
    return next((x.get('ct') or x.get('t') for x in self.F.globals if x['n'] == name), None)

  def char(self, items, i):
    """The character at position `i` (Aff) as a number."""
    a, b = self.split(items, i)
    if not b:
      return K(0)
    if isinstance(b[0], Name):
      return Const(('a character of a name',))
    return b[0] if isinstance(b[0], Aff) else K(ord(b[0]))

  def compare(self, op, x, y, st, t=''):
    for a, b in ((x, y), (y, x)):
      if a == Const(('a character of a name',)):
        if b == K(ord('/')) and op in ('==', '!='):
          return [(op == '!=', st)]
        raise Unsupported('a character of a name')
      if isinstance(a, Aff):
        for c in a.c:
          if c.startswith('len_'):
            st.iv.setdefault(c, (1, 2**40))
    return super().compare(op, x, y, st, t)

  def load(self, v, st, t=''):
    if isinstance(v, Ref) and v.loc:
      if isinstance(v.loc[0], tuple) and v.loc[0][0] == 'chars':
        items, i = v.loc[0][1], unidx(v.loc[1])
        return self.at(items, i, 0, st)
      if isinstance(v.loc[-1], tuple) and v.loc[-1][0] == 'ch':
        return self.at(self.text(Ref(v.loc[:-1]), st), v.loc[-1][1], 0, st)
    return super().load(v, st, t)

  def at(self, items, i, line, st):
    n = num(i)
    if n is not None and not any(isinstance(x, Name) for x in items) and n >= len(items):
      self.event(st, 'out-of-bounds', line, 'character %d of %d' % (n, len(items)))
      return K(0)
    return self.char(items, i)

  def store(self, loc, v, st):
    if loc and isinstance(loc[-1], tuple) and loc[-1][0] == 'ch':
      items = self.text(Ref(loc[:-1]), st)
      a, b = self.split(items, loc[-1][1])
      if not b or isinstance(b[0], Name):
        raise Unsupported('write to a character')
      return super().store(self.target(Ref(loc[:-1]), st), S(a + self.text(self.load(v, st), st, True) + b[1:]), st)
    if loc and isinstance(loc[0], tuple) and loc[0][0] == 'chars':
      raise Unsupported('write through a pointer to a character')
    super().store(loc, v, st)

  def split(self, items, pos):
    """The items before and from position `pos`."""
    n = num(pos)
    if n is not None and not any(isinstance(x, Name) for x in items):
      return items[:n], items[n:]
    for k in range(len(items) + 1):
      if _size(items[:k]) == pos:
        return items[:k], items[k:]
    if n is not None:
      if n >= M - 2**32:
        return items, ()
      known = 0
      while known < len(items) and not isinstance(items[known], Name):
        known += 1
      if n < known:
        return items[:n], items[n:]
    raise Unsupported('position %r in a text with names' % (pos,))

  def elements(self, v, st):
    x = self.load(v, st) if isinstance(v, Ref) else v
    if is_str(x):
      items = tuple(x.v[1])
      if any(isinstance(i, Name) for i in items):
        raise Unsupported('the characters of a name')
      return [(('chars', items), idx(i)) for i in range(len(items))]
    return super().elements(v, st)

  # --- calls ---
  def construct0(self, n, args, st):
    cls = n.get('cls') or ''
    if cls in STR:
      mv = n.get('move') and args and isinstance(args[0], Ref) and T.is_move(n['a'][0])
      v = self.string_of(n, args, st)
      if mv:
        self.store(self.target(args[0], st), Const(('moved',)), st)
      return [(v, st)]
    if cls in containers.VEC and len(args) >= 2 and not n.get('copy') and not n.get('move'):
      a, b = self.load(args[0], st), self.load(args[1], st)
      if isinstance(a, (Ptr, Const)) and isinstance(b, (Ptr, Const)):
        refs = [] if a == b else self.run(a, b, st)[0]
        loc = st.fresh('vec')
        self.new_vec(st, loc, [self.load(r, st) for r in refs])
        return [(Obj(loc, n), st)]
    return super().construct0(n, args, st)

  def string_of(self, n, args, st):
    if args and isinstance(args[-1], Top) and 'allocator' in args[-1].t:
      args = args[:-1]
    args = [a for a, x in zip(args, n['a']) if 'allocator' not in (x.get('t') or '')]
    if not args:
      return S(())
    if len(args) == 1:
      return S(self.text(args[0], st))
    v = [self.load(a, st) for a in args]
    if len(args) == 2 and isinstance(v[0], Ptr) and isinstance(v[1], Ptr):
      d = self.distance(v[1], v[0])
      s = self.pointed(v[0])
      if s is not None and d is not None:
        return S(self.split(s, d)[0])
    if len(args) == 2 and isinstance(v[0], (Ptr, Const)) and isinstance(v[1], Aff):
      t = self.text(args[0] if is_str(v[0]) or isinstance(args[0], Ref) else v[0], st)
      if 'basic_string' in (n['a'][0].get('ct') or n['a'][0].get('t') or '') or 'string_view' in (n['a'][0].get('ct') or n['a'][0].get('t') or ''):
        return S(self.split(t, v[1])[1])
      return S(self.split(t, v[1])[0])
    if len(args) == 2 and isinstance(v[0], Aff) and num(v[0]) is not None and isinstance(v[1], Aff):
      return S(self.text(v[1], st, True) * num(v[0]))
    if len(args) == 3 and is_str(v[0]):
      return S(self.sub(self.text(args[0], st), v[1], v[2], n, st))
    raise Unsupported('string constructor')

  def sub(self, items, pos, count, n, st):
    k = num(pos)
    if k is not None and not any(isinstance(x, Name) for x in items) and k > len(items):
      self.event(st, 'out-of-range', n.get('l', 0), 'substr')
      return ()
    r = self.split(items, pos)[1]
    if count is None:
      return r
    c = num(count)
    if c is not None and not any(isinstance(x, Name) for x in r):
      return r[:c]
    return self.split(r, count)[0]

  def cursor(self, items, pos):
    return Ptr((('chars', tuple(items)), idx(pos)))

  def model(self, name, n, obj, args, st):
    r = self.string_call(name, n, obj, args, st)
    return r if r is not None else super().model(name, n, obj, args, st)

  def finds(self, items, what, last, negate, line):
    """Position of the first/last item whose character is in `what`."""
    best = None
    for k, x in enumerate(items):
      if isinstance(x, Name):
        if not negate and set(what) <= {'/'}:
          continue
        raise Unsupported('what a name contains')
      if isinstance(x, Aff):
        raise Unsupported('search among unknown characters')
      if (x in what) != negate:
        best = _size(items[:k])
        if not last:
          return best
    return best if best is not None else K(M - 1)

  def string_call(self, name, n, obj, args, st):
    sh, cls = T.short(name), n.get('cls') or ''
    void = [(Top('void'), st)]
    if n['k'] == 'OCall':
      r = self.char_pointer(sh, n, ([obj] if obj is not None else []) + list(args), st)
      if r is not None:
        return r
    if obj is not None and cls in STR:
      q = self.load(obj, st) if not isinstance(obj, Ptr) else obj
      if isinstance(q, Ptr):
        obj = Ref(q.loc) if q.loc is not None else obj
      return self.method(sh, n, obj, args, st)
    if n['k'] == 'OCall' and obj is None and sh in ('operator==', 'operator!=', 'operator<', 'operator<=>', 'operator+', 'operator<=', 'operator>', 'operator>=', 'operator<<') and len(args) == 2:
      x, y = [self.load(a, st) for a in args]
      if isinstance(x, Const) and isinstance(x.v, tuple) and x.v[0] == 'order':
        pass
      elif sh == 'operator+' and (is_str(x) or is_str(y)):
        return [(S(self.text(args[0], st, True) + self.text(args[1], st, True)), st)]
      if isinstance(x, Const) and isinstance(x.v, tuple) and x.v[0] == 'order':
        return [({'<': x.v[1] < 0, '<=': x.v[1] <= 0, '>': x.v[1] > 0, '>=': x.v[1] >= 0, '==': x.v[1] == 0, '!=': x.v[1] != 0}[sh[8:]], st)]
      if isinstance(x, Obj) and isinstance(y, Obj) and (name.startswith('std::') or name.startswith('absl::')) and sh in ('operator==', 'operator!=', 'operator<', 'operator<=>', 'operator>', 'operator<=', 'operator>='):
        if self.compound(x, st) and self.compound(y, st):
          if sh in ('operator==', 'operator!='):
            return [(b == (sh == 'operator=='), s) for b, s in self.equal2(args[0], args[1], st)]
          return [(Const(('order', c)) if sh == 'operator<=>' else {'<': c < 0, '<=': c <= 0, '>': c > 0, '>=': c >= 0}[sh[8:]], s) for c, s in self.order2(args[0], args[1], st)]
      if is_str(x) and is_str(y) or sh != 'operator<<' and Const(('moved',)) in (x, y):
        return self.relate(sh[8:], self.text(args[0], st), self.text(args[1], st), st)
    if not (name.startswith('absl::') or name.startswith('std::')):
      return None
    if sh == 'StrCat':
      return [(S(i for a in args for i in self.text(a, st)), st)]
    if sh == 'StrAppend':
      p = self.load(args[0], st)
      self.store(self.target(Ref(p.loc), st), S(self.text(Ref(p.loc), st) + tuple(i for a in args[1:] for i in self.text(a, st))), st)
      return void
    if sh in ('ConsumePrefix', 'ConsumeSuffix'):
      p = self.load(args[0], st)
      a, b = self.text(Ref(p.loc), st), sure(self.text(args[1], st))
      if b is None:
        raise Unsupported(sh)
      hit = self.sure_hit(begins(a, b) if sh == 'ConsumePrefix' else ends(a, b), True)
      if hit and b:
        self.store(self.target(Ref(p.loc), st), S(a[len(b):] if sh == 'ConsumePrefix' else a[:len(a) - len(b)]), st)
      return [(hit, st)]
    if sh in ('StripPrefix', 'StripSuffix', 'StartsWith', 'EndsWith'):
      a, b = self.text(args[0], st), sure(self.text(args[1], st))
      if b is None:
        b = self.text(args[1], st)
        if sh in ('StartsWith', 'EndsWith') and same(a, b):
          return [(True, st)]
        raise Unsupported(sh)
      hit = self.sure_hit(begins(a, b) if sh in ('StripPrefix', 'StartsWith') else ends(a, b), sh.startswith('Strip'))
      if sh in ('StartsWith', 'EndsWith'):
        return [(hit, st)]
      return [(S(a if not hit or not b else a[len(b):] if sh == 'StripPrefix' else a[:len(a) - len(b)]), st)]
    if sh == 'StrContains':
      b = sure(self.text(args[1], st))
      if b is None or len(b) != 1:
        raise Unsupported(sh)
      return [(num(self.finds(self.text(args[0], st), b, False, False, 0)) != M - 1, st)]
    if sh == 'StrJoin':
      return self.join(args, st)
    if sh in ('AsciiStrToLower', 'AsciiStrToUpper'):
      return [(S(self.changed(sh, x) for x in self.text(args[0], st)), st)]
    if sh == 'StrReplaceAll' and len(args) == 2 and isinstance(self.load(args[1], st), Ptr):
      p = self.load(args[1], st)
      self.store(self.target(Ref(p.loc), st), S(self.replaced(self.text(Ref(p.loc), st), args[0], st)), st)
      return [(Top('int'), st)]
    if sh == 'StrReplaceAll':
      return [(S(self.replaced(self.text(args[0], st), args[1], st)), st)]
    if sh == 'StrFormat':
      return [(self.formatted(n, args, st), st)]
    if sh in ('Utf8SafeCHexEscape', 'CHexEscape', 'CEscape'):
      return [(S((Name(sh + '(' + ''.join(map(str, self.text(args[0], st))) + ')'),)), st)]
    if sh in ('mismatch', 'equal', 'find', 'all_of', 'any_of', 'none_of', 'c_all_of', 'c_any_of', 'c_none_of', 'c_find', 'count', 'make_reverse_iterator'):
      return self.algorithm(sh, n, args, st)
    return None

  def changed(self, what, x):
    if isinstance(x, Name):
      return transformed(x, 'lower' if what == 'AsciiStrToLower' else 'upper')
    if isinstance(x, Aff):
      raise Unsupported(what)
    return x.lower() if what == 'AsciiStrToLower' else x.upper() if what == 'AsciiStrToUpper' else x

  def replaced(self, items, arg, st):
    pairs = []
    for l in self.elements(arg, st) or []:
      a, b = self.parts(l, 2, st)
      pairs.append((sure(self.text(Ref(a), st)), self.text(Ref(b), st)))
    if not pairs or any(a is None or len(a) != 1 for a, _ in pairs):
      raise Unsupported('StrReplaceAll')
    m = dict(pairs)
    out = []
    for x in items:
      if isinstance(x, Aff):
        raise Unsupported('StrReplaceAll')
      if isinstance(x, Name):
        for a, b in sorted(m.items()):
          if a == '/':
            continue
          if a.isalpha() or any(not isinstance(i, str) or i.isalpha() for i in b):
            raise Unsupported('StrReplaceAll')
          x = transformed(x, '%s:%s' % (a, ''.join(b)))
        out.append(x)
      else:
        out += m.get(x, (x,))
    return out

  def formatted(self, n, args, st):
    f = None
    for x in T.walk(n['a'][0]):
      if x['k'] == 'Str':
        f = x['v']
        break
    if f is None:
      return Top('std::string')
    out, rest, i = [], list(args[1:]), 0
    try:
      while i < len(f):
        if f[i] != '%':
          out.append(f[i])
          i += 1
        elif f[i + 1] == '%':
          out.append('%')
          i += 2
        elif f[i + 1] in 'sdvu' and rest:
          out += self.text(rest.pop(0), st)
          i += 2
        else:
          return Top('std::string')
    except Unsupported:
      return Top('std::string')
    return S(out)

  def join(self, args, st):
    args = list(args)
    fn = self.load(args[-1], st)
    fn = fn if isinstance(fn, Fn) else None
    if fn is not None:
      args = args[:-1]
    sep = self.text(args[-1], st)
    if len(args) == 2:
      el = self.elements(args[0], st)
    else:
      a, b = self.load(args[0], st), self.load(args[1], st)
      el = None
      if isinstance(a, Const) and isinstance(b, Const) and a.v[0] == b.v[0] == 'it' and a.v[1] == b.v[1]:
        el = [a.v[1] + (idx(i),) for i in range(a.v[2], b.v[2])]
      elif isinstance(a, Ptr) and isinstance(b, Ptr) and self.distance(b, a) is not None and self.distance(b, a).const() is not None:
        el = [self.shift(a, K(i), st).loc for i in range(self.distance(b, a).const())]
    if el is None:
      raise Unsupported('StrJoin')
    l = st.fresh('joined')
    st.heap[l] = S(())
    cur = [st]
    for i, e in enumerate(el):
      nxt = []
      for s in cur:
        if i:
          s.heap[l] = S(self.text(Ref(l), s) + sep)
        if fn is None:
          s.heap[l] = S(self.text(Ref(l), s) + self.text(Ref(e), s))
          nxt.append(s)
        else:
          nxt += [s2 for _, s2 in self.apply_lambda(fn, [Ptr(l), Ref(e)], s)]
      cur = nxt
    return [(s.heap[l], s) for s in cur]

  def relate(self, op, a, b, st):
    if op in ('==', '!='):
      r = same(a, b)
      if r is None and len(a) == len(b) and not any(isinstance(x, Name) for x in a + b):
        out, cur = [], [st]
        for x, y in zip(a, b):
          nxt = []
          for s in cur:
            for v, s2 in self.compare('==', x if isinstance(x, Aff) else K(ord(x)), y if isinstance(y, Aff) else K(ord(y)), s, 'char'):
              (nxt if v else out).append(s2)
          cur = nxt
        return [(op == '==', s) for s in cur] + [(op == '!=', s) for s in out]
      if r is None:
        if len(a) != len(b) and not any(isinstance(x, Name) for x in a + b):
          r = False
        else:
          raise Unsupported('comparison of texts')
      return [(r == (op == '=='), st)]
    x, y = segs(a), segs(b)
    c = 0
    if len(x) == len(y) == 1:
      c = seg_cmp(x[0], y[0])
      if c is None:
        raise Unsupported('order of texts')
    elif list(a) != list(b):
      raise Unsupported('order of texts')
    if op == '<=>':
      return [(Const(('order', c)), st)]
    return [({'<': c < 0, '<=': c <= 0, '>': c > 0, '>=': c >= 0}[op], st)]

  # --- pointers to characters ---
  def char_pointer(self, sh, n, vals, st):
    if not vals or not sh.startswith('operator'):
      return None
    op = sh[8:]
    v = [self.load(x, st) for x in vals[:2]]
    if isinstance(v[0], Const) and isinstance(v[0].v, tuple) and v[0].v and v[0].v[0] == 'rit':
      p = v[0].v[1]
      if op in ('==', '!='):
        return [((v[0] == v[1]) == (op == '=='), st)]
      if op in ('+', '-') and len(v) > 1 and isinstance(v[1], Aff):
        return [(Const(('rit', self.shift(p, v[1].mul(-1 if op == '+' else 1), st))), st)]
      if op == '-' and len(v) > 1 and isinstance(v[1], Const):
        return [(self.distance(v[1].v[1], p), st)]
      if op == '*':
        return [(Ref(self.shift(p, K(-1), st).loc), st)]
      if op in ('++', '--') and isinstance(vals[0], Ref):
        self.store(self.target(vals[0], st), Const(('rit', self.shift(p, K(-1 if op == '++' else 1), st))), st)
        return [(v[0] if len(vals) > 1 else vals[0], st)]
      raise Unsupported('reverse iterator ' + op)
    if isinstance(v[0], Ptr) and v[0].loc and isinstance(v[0].loc[0], tuple) and v[0].loc[0][0] == 'chars' and ('iterator' in (n.get('cls') or '') or len(v) > 1 and isinstance(v[1], Ptr)):
      p = v[0]
      if op in ('==', '!='):
        return [((p == v[1]) == (op == '=='), st)]
      if op in ('+', '-') and isinstance(v[1], Aff):
        return [(self.shift(p, v[1] if op == '+' else v[1].mul(-1), st), st)]
      if op == '-':
        d = self.distance(p, v[1])
        return [(d, st)] if d is not None else None
      if op == '*':
        return [(Ref(p.loc), st)]
      if op in ('<', '<=', '>', '>='):
        return self.compare(op, self.distance(p, v[1]), K(0), st)
      if op in ('++', '--') and isinstance(vals[0], Ref):
        self.store(self.target(vals[0], st), self.shift(p, K(1 if op == '++' else -1), st), st)
        return [(p if len(vals) > 1 else vals[0], st)]
    return None

  def run(self, a, b, st):
    """The positions from iterator `a` to `b`, as references."""
    if isinstance(a, Ptr) and isinstance(b, Ptr):
      d = self.distance(b, a)
      if d is not None and d.const() is not None and abs(d.const()) > 1000:
        raise Unsupported('a range of %d elements' % d.const())
      if d is not None and d.const() is not None:
        return [Ref(self.shift(a, K(i), st).loc) for i in range(d.const())], [self.shift(a, K(i), st) for i in range(d.const() + 1)]
    if all(isinstance(x, Const) and isinstance(x.v, tuple) and x.v[0] == 'rit' for x in (a, b)):
      d = self.distance(a.v[1], b.v[1])
      if d is not None and d.const() is not None:
        return [Ref(self.shift(a.v[1], K(-1 - i), st).loc) for i in range(d.const())], [Const(('rit', self.shift(a.v[1], K(-i), st))) for i in range(d.const() + 1)]
    if all(isinstance(x, Const) and isinstance(x.v, tuple) and x.v[0] == 'it' for x in (a, b)) and a.v[1] == b.v[1]:
      return [Ref(a.v[1] + (idx(i),)) for i in range(a.v[2], b.v[2])], [Const(('it', a.v[1], i)) for i in range(a.v[2], b.v[2] + 1)]
    raise Unsupported('range of iterators')

  def equal2(self, x, y, st):
    """x == y for two values, by the operators of their class."""
    a, b = self.load(x, st), self.load(y, st)
    if is_str(a) and is_str(b):
      return self.relate('==', tuple(a.v[1]), tuple(b.v[1]), st)
    if isinstance(a, Obj) and isinstance(b, Obj):
      x, y = Ref(a.loc), Ref(b.loc)
      p, q = self.compound(a, st), self.compound(b, st)
      if p and q:
        if len(p[1]) != len(q[1]):
          return [(False, st)]
        out, cur = [], [st]
        for i, j in zip(p[1], q[1]):
          nxt = []
          for s in cur:
            for e, s2 in self.equal2(Ref(i), Ref(j), s):
              (nxt if e else out).append(s2)
          cur = nxt
        return [(True, s) for s in cur] + [(False, s) for s in out]
      k = self.class_of(a, st)
      ops = [f for f in self.F.functions + self.F.insts if T.short(f['n']) == 'operator==' and len(f['p']) == 2 and k and all(T.short(k) in p['t'] for p in f['p']) and f.get('body')]
      if len(ops) == 1:
        return self.call_fn(ops[0], None, [x, y], st)
      raise Unsupported('equality of objects')
    return self.compare('==', a, b, st)

  def compound(self, v, st):
    """('pair'|'seq', locations) of a pair or a sequence."""
    k = self.kind(v.loc, st)
    if k in ('vec', 'span'):
      return 'seq', self.elements(v, st)
    if k is None and any(q[:len(v.loc) + 1] == v.loc + ('first',) for q in st.heap):
      return 'pair', [v.loc + ('first',), v.loc + ('second',)]
    return None

  def order2(self, x, y, st):
    """[(-1|0|1, state)]: lexicographic, by < of the elements' class."""
    a, b = self.load(x, st), self.load(y, st)
    if is_str(a) and is_str(b):
      return [(c.v[1], s) for c, s in self.relate('<=>', tuple(a.v[1]), tuple(b.v[1]), st)]
    if isinstance(a, Obj) and isinstance(b, Obj):
      p, q = self.compound(a, st), self.compound(b, st)
      if p and q:
        cur, out = [st], []
        for i, j in zip(p[1], q[1]):
          nxt = []
          for s in cur:
            for c, s2 in self.order2(Ref(i), Ref(j), s):
              (nxt.append(s2) if not c else out.append((c, s2)))
          cur = nxt
        n = (len(p[1]) > len(q[1])) - (len(p[1]) < len(q[1]))
        return out + [(n, s) for s in cur]
      k = self.class_of(a, st)
      ops = [f for f in self.F.functions + self.F.insts if T.short(f['n']) == 'operator<' and len(f['p']) == 2 and k and all(T.short(k) in p['t'] for p in f['p']) and f.get('body')]
      if len(ops) != 1:
        raise Unsupported('order of objects')
      out = []
      for v, s in self.call_fn(ops[0], None, [Ref(a.loc), Ref(b.loc)], st):
        for l, s2 in self.truth(self.load(v, s), s):
          if l:
            out.append((-1, s2))
          else:
            out += [(1 if g else 0, s4) for w, s3 in self.call_fn(ops[0], None, [Ref(b.loc), Ref(a.loc)], s2) for g, s4 in self.truth(self.load(w, s3), s3)]
      return out
    return [(c, s3) for e, s in self.compare('<', a, b, st) for c, s3 in ([(-1, s)] if e else [(0 if q else 1, s2) for q, s2 in self.compare('==', a, b, s)])]

  def class_of(self, v, st):
    c = st.heap.get(v.loc + ('$',))
    return c.v if isinstance(c, Const) else None

  def algorithm(self, sh, n, args, st):
    v = [self.load(a, st) for a in args]
    if sh == 'make_reverse_iterator':
      return [(Const(('rit', v[0])), st)] if isinstance(v[0], Ptr) else None
    if sh in ('mismatch', 'equal'):
      fn = v[-1] if isinstance(v[-1], Fn) else None
      w = v[:-1] if fn else v
      ra, pa = self.run(w[0], w[1], st)
      if len(w) == 4:
        rb, pb = self.run(w[2], w[3], st)
      elif isinstance(w[2], Ptr):
        rb, pb = [Ref(self.shift(w[2], K(i), st).loc) for i in range(len(ra))], [self.shift(w[2], K(i), st) for i in range(len(ra) + 1)]
      elif isinstance(w[2], Const) and w[2].v[0] == 'rit':
        pb = [Const(('rit', self.shift(w[2].v[1], K(-i), st))) for i in range(len(ra) + 1)]
        rb = [Ref(self.shift(p.v[1], K(-1), st).loc) for p in pb[:-1]]
      elif isinstance(w[2], Const) and w[2].v[0] == 'it':
        pb = [Const(('it', w[2].v[1], w[2].v[2] + i)) for i in range(len(ra) + 1)]
        rb = [Ref(p.v[1] + (idx(p.v[2]),)) for p in pb[:-1]]
      else:
        raise Unsupported(sh)
      if sh == 'equal' and len(w) == 4 and len(ra) != len(rb):
        return [(False, st)]
      out, cur = [], [st]
      m = min(len(ra), len(rb))
      for i in range(m):
        if len(w) == 3 and rb[i].loc[-1][0] == 'idx' and self.kind(rb[i].loc[:-1], st) == 'vec' and num(unidx(rb[i].loc[-1])) >= self.size_of(rb[i].loc[:-1], st):
          for s in cur:
            self.event(s, 'out-of-bounds', n.get('l', 0), 'std::' + sh)
          out += [(i, s) for s in cur]
          cur = []
          break
        nxt = []
        for s in cur:
          for e, s2 in (self.equal2(ra[i], rb[i], s) if fn is None else [(b, s3) for r, s1 in self.apply_lambda(fn, [ra[i], rb[i]], s) for b, s3 in self.truth(self.load(r, s1), s1)]):
            (nxt.append(s2) if e else out.append((i, s2)))
        cur = nxt
      out += [(m, s) for s in cur]
      if sh == 'equal':
        return [(i == m, s) for i, s in out]
      r = []
      for i, s in out:
        l = s.fresh('pair')
        s.heap[l + ('first',)] = pa[i]
        s.heap[l + ('second',)] = pb[i]
        s.heap[l + ('$',)] = Const('std::pair')
        r.append((Obj(l, n), s))
      return r
    if sh in ('find', 'c_find', 'count') or sh.endswith('_of'):
      if sh.startswith('c_'):
        el = self.elements(args[0], st)
        if el is None:
          return None
        refs, x, pos = [Ref(l) for l in el], v[1], None
        if sh == 'c_find':
          return None
      else:
        try:
          refs, pos = self.run(v[0], v[1], st)
        except Unsupported:
          return None
        x = v[2]
      if sh in ('find', 'count'):
        if sh == 'count':
          return None
        out, cur = [], [st]
        for i, r in enumerate(refs):
          nxt = []
          for s in cur:
            for e, s2 in self.equal2(r, x, s):
              (out.append((pos[i], s2)) if e else nxt.append(s2))
          cur = nxt
        return out + [(pos[-1], s) for s in cur]
      if not isinstance(x, Fn):
        raise Unsupported(sh)
      stop = sh.endswith('any_of') or sh.endswith('none_of')
      out, cur = [], [st]
      for r in refs:
        nxt = []
        for s in cur:
          for q, s1 in self.apply_lambda(x, [r], s):
            for e, s2 in self.truth(self.load(q, s1), s1):
              (out if e == stop else nxt).append(s2)
        cur = nxt
      hit = sh.endswith('any_of')
      return [(hit, s) for s in out] + [(not hit, s) for s in cur]
    return None

  # --- methods ---
  def method(self, sh, n, obj, args, st):
    t = self.target(obj, st) if isinstance(obj, Ref) else None
    s = self.text(obj, st)
    void = [(Top('void'), st)]
    if sh in ('size', 'length'):
      return [(_size(s), st)]
    if sh == 'empty':
      return [(not s, st)]
    if sh.startswith('operator basic_string_view') or sh in ('c_str', 'Piece'):
      return [(S(s), st)]
    if sh in ('begin', 'cbegin', 'data'):
      return [(self.cursor(s, K(0)), st)]
    if sh in ('end', 'cend'):
      return [(self.cursor(s, _size(s)), st)]
    if sh in ('rbegin', 'crbegin'):
      return [(Const(('rit', self.cursor(s, _size(s)))), st)]
    if sh in ('rend', 'crend'):
      return [(Const(('rit', self.cursor(s, K(0)))), st)]
    if sh in ('operator[]', 'at', 'front', 'back'):
      if sh in ('front', 'back'):
        i = K(0) if sh == 'front' else _size(s).add(K(-1))
      else:
        i = self.load(args[0], st)
      if not isinstance(i, Aff):
        raise Unsupported('index of a text')
      if num(i) is not None:
        i = K(num(i))
      if t is not None and 'const' not in (n.get('t') or '') and 'view' not in (n.get('cls') or ''):
        return [(Ref(t + (('ch', i),)), st)]
      return [(self.at(s, i, n.get('l', 0), st), st)]
    if sh == 'substr':
      a = self.load(args[0], st) if args else K(0)
      b = self.load(args[1], st) if len(args) > 1 else None
      if b is not None and not isinstance(b, Aff):
        b = None
      return [(S(self.sub(s, a, b, n, st)), st)]
    if sh in ('remove_prefix', 'remove_suffix'):
      k = self.load(args[0], st)
      m = num(k)
      if m is not None and not any(isinstance(x, Name) for x in s) and m > len(s):
        self.event(st, 'out-of-bounds', n.get('l', 0), sh)
        m = len(s)
        k = K(m)
      r = self.split(s, k)[1] if sh == 'remove_prefix' else self.split(s, _size(s).add(k, -1))[0]
      self.store(t, S(r), st)
      return void
    if sh in ('find', 'find_first_of', 'find_last_of', 'rfind', 'find_first_not_of', 'find_last_not_of'):
      if len(args) > 1 and num(self.load(args[1], st)) not in (None, 0, M - 1):
        raise Unsupported(sh + ' from a position')
      if len(args) > 1 and isinstance(self.load(args[1], st), Aff) and (num(self.load(args[1], st)) == 0) != (sh in ('find', 'find_first_of', 'find_first_not_of')):
        raise Unsupported(sh + ' from a position')
      w = sure(self.text(args[0], st, True))
      if w is None or sh in ('find', 'rfind') and len(w) != 1:
        raise Unsupported(sh)
      return [(self.finds(s, w, sh in ('find_last_of', 'rfind', 'find_last_not_of'), 'not' in sh, n.get('l', 0)), st)]
    if sh in ('starts_with', 'ends_with'):
      w = sure(self.text(args[0], st, True))
      if w is None:
        raise Unsupported(sh)
      return [(self.sure_hit((begins if sh == 'starts_with' else ends)(s, w)), st)]
    if sh == 'compare' and len(args) == 1:
      return [(K(c.v[1]), s2) for c, s2 in self.relate('<=>', s, self.text(args[0], st), st)]
    if t is None:
      raise Unsupported('string operation ' + sh)
    if sh in ('reserve', 'shrink_to_fit'):
      return void
    if sh == 'clear':
      self.store(t, S(()), st)
      return void
    if sh in ('append', 'operator+=', 'push_back', 'assign', 'operator='):
      base = () if sh in ('assign', 'operator=') else s
      if len(args) == 1:
        x = self.text(args[0], st, True)
        if sh == 'operator=' and isinstance(args[0], Ref) and T.is_move(n['a'][-1]):
          self.store(self.target(args[0], st), Const(('moved',)), st)
      else:
        x = tuple(self.string_of(dict(n, a=n['a'][-len(args):]), args, st).v[1])
      self.store(t, S(base + x), st)
      return [(obj, st)]
    if sh == 'pop_back':
      if not s:
        self.event(st, 'out-of-bounds', n.get('l', 0), 'pop_back')
      if s and isinstance(s[-1], Name):
        raise Unsupported('pop_back')
      self.store(t, S(s[:-1]), st)
      return void
    if sh == 'resize':
      k = num(self.load(args[0], st))
      if k is None or any(isinstance(x, Name) for x in s):
        raise Unsupported('resize')
      fill = self.text(args[1], st, True) if len(args) > 1 and isinstance(self.load(args[1], st), Aff) else ('\0',)
      if k > 10**4:
        self.event(st, 'out-of-range', n.get('l', 0), 'resize')
        k = len(s)
      self.store(t, S(s[:k] + fill * (k - len(s))), st)
      return void
    if sh in ('replace', 'erase', 'insert'):
      v = [self.load(a, st) for a in args]
      if sh == 'insert':
        v = [v[0], K(0)] + v[1:]
      if not isinstance(v[0], Aff) or num(v[0]) is None or any(isinstance(x, Name) for x in s):
        raise Unsupported(sh)
      p = num(v[0])
      c = num(v[1]) if len(v) > 1 and isinstance(v[1], Aff) else M - 1
      if p > len(s):
        self.event(st, 'out-of-range', n.get('l', 0), sh)
        return void
      x = ()
      if sh != 'erase':
        x = self.text(v[2], st) if len(v) == 3 else self.text(v[3], st, True) * num(v[2])
      self.store(t, S(s[:p] + x + s[p + c:]), st)
      return [(obj, st)]
    raise Unsupported('string operation ' + sh)
