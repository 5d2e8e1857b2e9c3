"""U04: which texts are identifiers, operator names and one typo apart; shortened and quoted texts."""
import itertools
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import absint
from absint import Aff, Ptr, Ref, Obj, Const, Top, Unsupported
from containers import K
import facts
import N01
import parcases
import report
from strs import Name, S
import tree as T

RULE = ('Abstract interpretation of util/string.h and util/operator_name.h: recognisers on texts of up to four unknown characters (every path covers a box of characters, and the answer has to be right '
        'for the whole box); the distance predicate on every pattern of equal and different characters; truncation, prefixes, delimiters and quoting by their result.')
EVENTS = ('out-of-bounds', 'out-of-range', 'null-deref', 'use-after-move')
FN = {}
CLASSES = ('alpha', '_', 'digit', '.', 'other')


class I(N01.I):
  LOOP = 40
  MAXSTATES = 30000

  def fork_cmp(self, op, d, st):
    if op in ('==', '!=') and len(d.c) == 1:
      r = super().fork_cmp('<', d, st)
      out = []
      for b, s in r:
        if b:
          out.append((op == '!=', s))
        else:
          for b2, s2 in super().fork_cmp('>', d, s):
            out.append(((op == '!=') == b2, s2))
      return out
    return super().fork_cmp(op, d, st)

  def status_model(self, name, n, obj, args, st):
    return None if name.startswith('arolla::') else super().status_model(name, n, obj, args, st)

  def trunc(self, v, t, st):
    raise Unsupported('conversion of a character')

  def string_call(self, name, n, obj, args, st):
    sh = T.short(name)
    if name in ('absl::ascii_isalpha', 'absl::ascii_isdigit', 'absl::ascii_isalnum', 'isalpha', 'isdigit', 'isalnum', 'std::isalpha', 'std::isdigit', 'std::isalnum'):
      x = self.load(args[0], st)
      if not isinstance(x, Aff):
        raise Unsupported(sh)
      rs = ([(65, 90), (97, 122)] if 'digit' not in sh else []) + ([(48, 57)] if 'alpha' not in sh else [])
      out, cur = [], [st]
      for lo, hi in sorted(rs):
        nxt = []
        for s in cur:
          for b, s2 in self.fork_cmp('<', x.add(K(lo), -1), s):
            if b:
              out.append((False, s2))
            else:
              for b2, s3 in self.fork_cmp('>', x.add(K(hi), -1), s2):
                (nxt.append(s3) if b2 else out.append((True, s3)))
        cur = nxt
      return out + [(False, s) for s in cur]
    return super().string_call(name, n, obj, args, st)


def kind(c):
  return 'alpha' if 65 <= c <= 90 or 97 <= c <= 122 else 'digit' if 48 <= c <= 57 else '_' if c == 95 else '.' if c == 46 else 'other'


def identifier(ks):
  return bool(ks) and ks[0] in ('alpha', '_') and all(k in ('alpha', '_', 'digit') for k in ks)


def chain(ks):
  out = [[]]
  for k in ks:
    if k == '.':
      out.append([])
    else:
      out[-1].append(k)
  return all(identifier(x) for x in out)


def near(a, b):
  """Damerau-Levenshtein distance at most 1."""
  if a == b:
    return True
  if len(a) == len(b):
    d = [i for i in range(len(a)) if a[i] != b[i]]
    return len(d) == 1 or len(d) == 2 and d[1] == d[0] + 1 and a[d[0]] == b[d[1]] and a[d[1]] == b[d[0]]
  if abs(len(a) - len(b)) != 1:
    return False
  a, b = (a, b) if len(a) > len(b) else (b, a)
  return any(a[:i] + a[i + 1:] == b for i in range(len(a)))


def case(t):
  bad = []
  try:
    judge(t, bad)
  except Unsupported as e:
    if 'loop not bounded' not in str(e):
      raise
    bad.append('a loop takes more than %d rounds' % I.LOOP)
  return [t[0] + ': ' + x for x in dict.fromkeys(bad)]


def judge(t, bad):
  fn, a = t[0], t[1:]
  it, st = I(N01.F), absint.State()

  def call(*args):
    outs = it.call_fn(FN[fn], None, list(args), st)
    if not outs:
      raise Unsupported('%s does not return' % fn)
    for v, s in outs:
      bad.extend('%s: %s' % (e[0], e[-1]) for e in s.log if e[0] in EVENTS)
    return outs

  def truths(outs):
    return [x for v, s in outs for x in it.truth(it.load(v, s), s)]

  if fn in ('is_identifier', 'is_qualified', 'is_operator'):
    items = []
    for i, neg in enumerate(a[0]):
      st.iv['c%d' % i] = (-128, -1) if neg else (0, 127)
      items.append(Aff({'c%d' % i: 1}, 0))
    want = identifier if fn == 'is_identifier' else chain
    for b, s in truths(call(S(items))):
      box = []
      for i in range(len(items)):
        lo, hi = s.iv['c%d' % i]
        box.append(sorted({kind(c) for c in range(int(lo), int(hi) + 1)}))
      for ks in itertools.product(*box):
        if want(ks) != b:
          bad.append('%s is%s taken for %s' % (' '.join(ks) or 'the empty text', '' if b else ' not', 'an identifier' if fn == 'is_identifier' else 'a chain of identifiers'))
          break
  elif fn in ('one_typo', 'begins'):
    x, y = a
    want = near(x, y) if fn == 'one_typo' else x[:len(y)] == y
    for b, s in truths(call(S(x), S(y))):
      if b != want:
        bad.append("'%s' and '%s' %s" % (x, y, ('count as' if b else 'do not count as') + (' one typo apart' if fn == 'one_typo' else ' a text and its prefix')))
  elif fn == 'truncate':
    x, m = a
    want = x if len(x) <= m else x[:m - 3] + '...'
    for v, s in call(S(x), K(m)):
      got = it.text(v, s)
      if got != tuple(want):
        bad.append("'%s' to %d characters becomes '%s'" % (x, m, ''.join(map(str, got))))
  elif fn == 'comma':
    st.heap[('first',)] = a[0]
    for v, s in call(Ref(('first',)), S(N01.N('d'))):
      got = it.text(v, s)
      if got != (() if a[0] else N01.N('d')):
        bad.append('%s call: %s' % ('the first' if a[0] else 'a later', ''.join(map(str, got)) or 'nothing'))
      if it.load(Ref(('first',)), s) not in (False, K(0)):
        bad.append('the flag stays set')
  elif fn == 'access':
    key = a[0]
    for v, s in call(S(key)):
      got = it.text(v, s)
      want = ('.',) + tuple(key) if identifier([kind(ord(c)) for c in key]) else tuple("['") + (Name('Utf8SafeCHexEscape(%s)' % key),) + tuple("']")
      if got != want:
        bad.append("the access to '%s' is %s" % (key, ''.join(map(str, got))))


def patterns(n, m, letters):
  """Every pattern of equal and different characters in two texts."""
  def grow(k, used):
    if k == 0:
      yield ''
      return
    for i in range(min(used + 1, letters)):
      for r in grow(k - 1, max(used, i + 1)):
        yield chr(97 + i) + r
  for s in grow(n + m, 0):
    yield s[:n], s[n:]


def cases():
  for n in range(5):
    for neg in itertools.product((False, True), repeat=n):
      for fn in ('is_identifier', 'is_qualified', 'is_operator'):
        yield fn, neg
  for n in range(7):
    for m in range(7):
      if abs(n - m) > 3:
        continue
      for x, y in patterns(n, m, 9 if n + m <= 7 else 4 if n + m <= 8 else 2):
        yield 'one_typo', x, y
        if n <= 3 and m <= 4:
          yield 'begins', x, y
  for n in range(10):
    for m in range(4, 11):
      yield 'truncate', 'abcdefghij'[:n], m
  yield 'comma', True
  yield 'comma', False
  for k in ('', 'a', '_', 'a1', '1a', 'a.b', 'a b', "a'b", '_1', '.', 'A_z9'):
    yield 'access', k


NAMES = ('is_identifier', 'is_qualified', 'is_operator', 'one_typo', 'begins', 'truncate', 'comma', 'access')


def load():
  N01.load()
  FN.clear()
  FN.update(N01.FN)


def main(c):
  load()
  parcases.check(c, case, list(cases()), NAMES, FN, {f: N01.site(f) for f in NAMES if f in FN})


if __name__ == '__main__':
  report.main('U04', RULE, main)
