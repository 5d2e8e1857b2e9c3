"""D02: bitmaps of dense arrays."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import absint
from absint import Aff, Ptr, Ref, Obj, Const, Top, Unsupported
import bitvec
from bitvec import BV, ONE, ZERO, var, op2, subst
from containers import K, idx
import facts
import parcases
import rawbuf
import report
import tree as T

RULE = ('Abstract interpretation of every function and class of dense_array/bitmap.h and bitmap.cc (with the buffers they build, from source) over bitmaps of the exact size whose bits are all '
        'symbolic, for an enumerated family of sizes, offsets and splits that covers every word-boundary alignment up to several words: each result equals its per-bit definition with the '
        'empty bitmap meaning "all present", callbacks see every element once and in order, built bitmaps own the memory they show, nothing outside the bitmap is touched.')
EVENTS = ('out-of-bounds', 'shift-range', 'scan-of-zero', 'null-deref', 'partial', 'use-after-free', 'bad-realloc')
W = 32
F = None
FN = {}


def setup(f):
  global F
  F = f
  for x in f.functions:
    if x['n'].startswith('witness::') and x['kind'] == 'plain':
      FN[T.short(x['n'])] = x


def site(name):
  for x in T.walk_fn(FN[name]):
    c = x.get('fn') or x.get('cls') or ''
    if c.startswith('arolla::bitmap::'):
      for f in F.functions + F.insts:
        if f['file'].startswith('arolla/dense_array') and (f['n'] == c or f['n'].startswith(c + '::')):
          return '%s:%d' % (f['file'], f['l'])
  return 'arolla/dense_array/bitmap.h'


class Run:

  def __init__(self):
    self.it = rawbuf.Buf(F)
    self.it.WORD = W
    self.it.bitset_width = lambda n, obj: W
    self.st = absint.State()

  def bitmap(self, name, words, owner=True):
    """A bitmap over a region of exactly `words` words; no region when empty."""
    p = self.it.region(self.st, name, words, W) if words else Ptr(None)
    (sp, st), = self.it.call_fn(FN['bm_span'], None, [p, K(words)], self.st)
    (v, st), = self.it.call_fn(FN['bm_make'], None, [Const(('owner', name)) if words else Ptr(None), sp], st)
    self.st = st
    loc = (name + '$bitmap',)
    self.it.copy_obj(v.loc, loc, st)
    return Ref(loc)

  def raw(self, name, words):
    return self.it.region(self.st, name, words, W)

  def span(self, name, words):
    p = self.it.region(self.st, name, words, W)
    (sp, self.st), = self.it.call_fn(FN['bm_span'], None, [p, K(words)], self.st)
    return sp

  def call(self, fn, *args):
    outs = self.it.call_fn(FN[fn], None, [K(a) if isinstance(a, int) else a for a in args], self.st)
    if not outs:
      raise facts.AnalysisBroken('%s does not return' % fn)
    return outs

  def read(self, v, s):
    """(words, [bit]) of a bitmap value."""
    (p, s), = self.it.call_fn(FN['bm_begin'], None, [Ref(v.loc)], s)
    (n, s), = self.it.call_fn(FN['bm_len'], None, [Ref(v.loc)], s)
    n = n.const()
    out = []
    for i in range(n):
      w = self.it.bv(self.it.load(Ref(self.it.shift(p, K(i), s).loc), s, 'unsigned int'), W)
      out += w.b if w else [None] * W
    return n, out, p

  def owned(self, v, s, p):
    hs = [x for k, x in s.heap.items() if k[:len(v.loc)] == v.loc and isinstance(x, Const) and isinstance(x.v, tuple) and x.v[0] == 'owner']
    if p.loc and p.loc[0].startswith('mem') and [h.v[1] for h in hs] != [p.loc[0]]:
      return ['the bitmap does not keep its memory alive']
    return []


def faults(s):
  return sorted({'%s (%s)' % (e[0], e[2]) if len(e) > 2 else e[0] for e in s.log if e[0] in EVENTS})


def as_bit(it, v, s):
  if isinstance(v, bool):
    return ONE if v else ZERO
  if isinstance(v, Aff) and v.const() in (0, 1):
    return ONE if v.const() else ZERO
  if isinstance(v, BV):
    r = [subst(b, it.asg(s)) for b in v.b]
    if all(b == ZERO for b in r[1:]):
      return r[0]
  raise Unsupported('value of a bit: %r' % (v,))


def num(it, v, s):
  v = it.load(v, s)
  if isinstance(v, bool):
    v = K(int(v))
  if isinstance(v, BV):
    v = it.count(v, s) if len(v.b) == 1 else v
  if not isinstance(v, Aff):
    raise Unsupported('number %r' % (v,))
  return v


def bits_are(it, s, got, want, what):
  a = it.asg(s)
  for i, g in enumerate(got):
    x = want(i)
    if x is not None and (g is None or subst(g, a) != subst(x, a)):
      return ['%s: bit %d is %r instead of %r' % (what, i, g, subst(x, a))]
  return []


def size(n):
  return (n + W - 1) // W


A = lambda i: var(('a', i))
B = lambda i: var(('b', i))
R = lambda i: var(('r', i))


def case(t):
  bad = []
  try:
    return judge(t, bad)
  except Unsupported:
    if bad:
      return bad
    raise


def judge(t, bad):
  fn, a = t[0], t[1:]
  r = Run()
  it = r.it
  what = ' '.join(str(x) for x in a)
  if fn == 'bm_size':
    n, = a
    for v, s in r.call(fn, n):
      if num(it, v, s).const() != size(n):
        bad.append('%d bits in %r words' % (n, num(it, v, s)))
  elif fn in ('bm_word', 'bm_word_at'):
    n, i = a[:2]
    o = a[2] if len(a) > 2 else 0
    for v, s in r.call(fn, r.bitmap('a', n), *a[1:]):
      bad += faults(s)
      w = it.bv(it.load(v, s), W)
      if w is None:
        raise Unsupported('a word %r' % (v,))
      k = i * W + o
      want = lambda j: ONE if i >= n else A(k + j) if k + j < n * W else None
      bad += bits_are(it, s, w.b, want, 'word %d of %d at offset %d' % (i, n, o))
  elif fn in ('bm_all', 'bm_none'):
    n, = a
    want = 1 if fn == 'bm_all' else 0
    for v, s in [x for v, s in r.call(fn, r.raw('a', size(n)), n) for x in it.truth(v, s)]:
      bad += faults(s)
      asg = it.asg(s)
      if v and any(asg.get(('a', i)) != want for i in range(n)):
        bad.append('%d bits: yes although a bit may be otherwise' % n)
      if not v and it.assume_all([(A(i), want) for i in range(n)], s) is not None:
        bad.append('%d bits: no although all bits may be so' % n)
  elif fn == 'bm_and':
    n, = a
    for v, s in r.call(fn, r.bitmap('a', n), r.bitmap('b', n), r.span('r', n)):
      bad += faults(s) + bits_are(it, s, it.bits(s, 'r', W), lambda i: op2('&', A(i), B(i)), '%d words' % n)
      bad += bits_are(it, s, it.bits(s, 'a', W) if n else [], A, 'argument')
  elif fn == 'bm_and_at':
    n, x, y = a       # n elements; the bitmaps have their own offsets
    na, nb = size(n + x), size(n + y)
    m = min(na, nb)
    o = min(x, y)
    for v, s in r.call(fn, r.bitmap('a', na), r.bitmap('b', nb), x, y, r.span('r', m)):
      bad += faults(s)
      bad += bits_are(it, s, it.bits(s, 'r', W), lambda i: op2('&', A(i - o + x), B(i - o + y)) if o <= i < o + n else None, '%d elements at offsets %d and %d' % (n, x, y))
  elif fn in ('bm_get_word', 'bm_get_raw', 'bm_get'):
    n, i = a
    src = bitvec.word('a', W) if fn == 'bm_get_word' else r.raw('a', n) if fn == 'bm_get_raw' else r.bitmap('a', n)
    for v, s in r.call(fn, src, i):
      bad += faults(s)
      if as_bit(it, v, s) != (subst(A(i), it.asg(s)) if n else ONE):
        bad.append('element %d of %d words' % (i, n))
  elif fn in ('bm_set', 'bm_unset'):
    i, = a
    for v, s in r.call(fn, r.raw('r', i // W + 1), i):
      bad += faults(s) + bits_are(it, s, it.bits(s, 'r', W), lambda k: (ONE if fn == 'bm_set' else ZERO) if k == i else R(k), 'bit %d' % i)
  elif fn == 'bm_count':
    words, o, n = a
    for v, s in r.call(fn, r.bitmap('a', words), o, n):
      bad += faults(s)
      inside = [i for i in range(o, o + n) if i < words * W]
      want = it.count(BV([A(i) for i in inside]), s).add(K(n - len(inside)))
      got = num(it, v, s)
      if got != want:
        bad.append('[%d, %d) of %d words: differs from the number of present elements by %r' % (o, o + n, words, got.add(want, -1)))
  elif fn in ('bm_iterate_word', 'bm_groups', 'bm_iterate'):
    if fn == 'bm_iterate_word':
      o, n = 0, a[0]
      outs = r.call(fn, bitvec.word('a', W), n)
    else:
      words, o, n = a
      outs = r.call(fn, r.raw('a', words) if fn == 'bm_groups' else r.bitmap('a', words), o, n)
    for v, s in outs:
      bad += faults(s)
      seen = [(num(it, e[1], s).const(), as_bit(it, e[2], s)) for e in s.log if e[0] == 'log']
      one = fn == 'bm_iterate' and not words
      want = [(i, ONE if one else subst(A(o + i), it.asg(s))) for i in range(n)]
      if seen != want:
        i = next((i for i, (p, q) in enumerate(zip(seen, want)) if p != q), min(len(seen), len(want)))
        bad.append('[%d, %d): call %d of %d is %s' % (o, o + n, i, n, seen[i] if i < len(seen) else 'missing'))
  elif fn == 'bm_empty':
    n, = a
    for v, s in r.call(fn, n):
      bad += faults(s)
      k, got, p = r.read(v, s)
      bad += r.owned(v, s, p) + (['%d words for %d bits' % (k, n)] if k != size(n) else [])
      bad += bits_are(it, s, got, lambda i: ZERO if i < n else None, '%d bits' % n)
  elif fn == 'bm_full':
    n, = a
    for v, s in r.call(fn, n):
      bad += faults(s)
      k, got, p = r.read(v, s)
      if k:
        bad += ['%d words without missing ids' % k]
  elif fn in ('bm_almost_full', 'bm_almost_full_cut'):
    n, x, y = a
    miss = (x, y) if fn == 'bm_almost_full' else (x,)
    m = n if fn == 'bm_almost_full' else y
    for v, s in r.call(fn, n, x, y):
      bad += faults(s)
      k, got, p = r.read(v, s)
      bad += r.owned(v, s, p) if m else []
      if k != size(m):
        bad.append('%d words for %d bits' % (k, m))
      bad += bits_are(it, s, got, lambda i: (ZERO if i in miss else ONE) if i < m else None, '%d bits without %s' % (m, list(miss)))
  elif fn in ('bm_build', 'bm_build_each'):
    n, x, y, z = a
    for v, s in r.call(fn, n, x, y, z):
      bad += faults(s)
      seen = [e[1] for e in s.log if e[0] == 'input']
      if seen != list(range(x + y + z)):
        bad.append('%s: the values are not asked for once and in order' % what)
      k, got, p = r.read(v, s)
      asg = it.asg(s)
      if not k:
        if any(asg.get(('in', i)) != 1 for i in range(x + y + z)):
          bad.append('%s: reported as all present although an element may be missing' % what)
        continue
      bad += r.owned(v, s, p)
      if k != size(n):
        bad.append('%d words for %d bits' % (k, n))
      bad += bits_are(it, s, got, lambda i: var(('in', i)) if i < x + y + z else None, 'built from %s' % what)
  return [fn + ': ' + x for x in bad]


NAMES = ('bm_size', 'bm_word', 'bm_word_at', 'bm_all', 'bm_none', 'bm_and', 'bm_and_at', 'bm_get_word', 'bm_get_raw', 'bm_get', 'bm_set', 'bm_unset', 'bm_count', 'bm_iterate_word', 'bm_groups',
         'bm_iterate', 'bm_empty', 'bm_full', 'bm_almost_full', 'bm_almost_full_cut', 'bm_build', 'bm_build_each')


def cases(thorough):
  for n in list(range(130)) + [2**31 - 1, 2**31, 2**32 + 5, 2**40 + 33]:
    yield ('bm_size', n)
  for n in range(5):
    for i in range(n + 2):
      yield ('bm_word', n, i)
      for o in range(W):
        yield ('bm_word_at', n, i, o)
    yield ('bm_and', n)
  for n in range(101):
    yield ('bm_all', n)
    yield ('bm_none', n)
  offs = range(W) if thorough else (0, 1, 5, 15, 16, 27, 31)
  for n in range(1 if not thorough else 0, 101):
    for x in offs:
      for y in offs:
        yield ('bm_and_at', n, x, y)
  for i in range(3 * W):
    yield ('bm_set', i)
    yield ('bm_unset', i)
    yield ('bm_get_raw', i // W + 1, i)
    yield ('bm_get', i // W + 1, i)
    yield ('bm_get', 0, i)
    if i < W:
      yield ('bm_get_word', 1, i)
  ns = sorted(set(range(0, 101, 1 if thorough else 3)) | {31, 32, 33, 63, 64, 65, 95, 96, 97})
  os_ = range(0, 70) if thorough else (0, 1, 5, 16, 31, 32, 33, 40, 63, 64)
  for n in range(W + 1):
    yield ('bm_iterate_word', n)
  for o in os_:
    for n in ns:
      for extra in (0, 1):
        yield ('bm_groups', size(o + n) + extra, o, n)
        yield ('bm_iterate', size(o + n) + extra, o, n)
      for words in range(0, size(o + n) + 2):
        yield ('bm_count', words, o, n)
    yield ('bm_iterate', 0, o, 70)
  for n in list(range(0, 100, 7)) + [31, 32, 33, 64, 16384 * 8 - 1, 16384 * 8, 16384 * 8 + 1, 16384 * 8 + 40]:
    yield ('bm_empty', n)
  for n in (1, 5, 31, 32, 33, 63, 64, 65, 97):
    yield ('bm_full', n)
    for x in sorted({0, n // 2, n - 1, min(n - 1, 31), min(n - 1, 32)}):
      for y in sorted({0, n // 3, n - 1}):
        yield ('bm_almost_full', n, x, y)
      for m in sorted({0, 1, n // 2, n, min(n, 32), min(n, 33)}):
        yield ('bm_almost_full_cut', n, x, m)
  part = (0, 1, 5, 31, 32, 33, 64, 70) if not thorough else (0, 1, 2, 5, 16, 30, 31, 32, 33, 45, 63, 64, 65, 70)
  for x in part:
    for y in part:
      for z in ((0, 1, 27, 32, 33) if not thorough else part):
        for n in (x + y + z, x + y + z + 40):
          yield ('bm_build', n, x, y, z)
          if x + y + z == n:
            yield ('bm_build_each', n, x, y, z)


def load():
  return facts.load(facts.Scope(inst=['arolla/dense_array/bitmap', 'arolla/memory/', 'arolla/util/', '@tu/'], extra=[os.path.join(facts.VERIF, 'tu', 'bits.cc')]))


def main(c):
  setup(load())
  for fn in NAMES:
    c.need(fn in FN, fn)
  where = {fn: site(fn) for fn in NAMES}
  todo = list(cases(os.environ.get('VERIF_TIER') == 'thorough'))
  res = parcases.run(case, todo, 16)
  und, seen = set(), set()
  for t, bad, un in res:
    c.count('cases')
    c.count(t[0])
    if un:
      und.add((where[t[0]], '%s: %s' % (t[0], un)))
      continue
    for x in bad:
      c.bad(where[t[0]], x, key='%s|%s' % (t[0], x))
    if not bad:
      c.ok(None if t[0] in seen else '%s for every size and offset' % t[0])
      seen.add(t[0])
  for x in sorted(und):
    c.undecided(*x)


if __name__ == '__main__':
  report.main('D02', RULE, main)
