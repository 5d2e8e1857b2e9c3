"""D01: ranges of bits: every helper does its bits, all of them, and no others."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import absint
from absint import Aff, Ptr, Ref, Obj, Const, Top, Unsupported
import bitvec
from bitvec import BV, ONE, ZERO, var, op2, subst
from containers import K, idx
import facts
import parcases
import report
import tree as T

RULE = ('Abstract interpretation of the instances of util/bits.h and util/algorithms.h for 32- and 64-bit words over regions of the exact size whose bits are all symbolic (a bit is a boolean '
        'function of input bits), for every offset and length of an enumerated family that covers all word-boundary alignments up to several words: the resulting bits, counts and positions '
        'equal their per-bit definition, no bit outside the range changes, no word outside the region is touched, no shift leaves the width of its operand, no scan sees zero.')


class I(bitvec.Bits):
  pass


EVENTS = ('out-of-bounds', 'shift-range', 'scan-of-zero', 'null-deref', 'partial')
F = None
FN = {}
SITE = {}


def setup(f):
  global F
  F = f
  for x in f.functions:
    if x['n'].startswith('witness::') and x['kind'] == 'plain':
      FN[T.short(x['n'])] = x


def site(name):
  """file:line of the library function a witness calls."""
  if name not in SITE:
    for x in T.walk_fn(FN[name]):
      if x['k'] in ('Call', 'MCall'):
        c = T.callee_name(x) or ''
        for f in F.insts + F.functions:
          if f['n'] == c:
            SITE[name] = '%s:%d' % (f['file'], f['l'])
            return SITE[name]
    SITE[name] = 'arolla/util/bits.h'
  return SITE[name]


def interp(w):
  it = I(F)
  it.WORD = w
  it.bitset_width = lambda n, obj: w
  return it


def run(w, fn, args, regions, assume=None):
  """-> (interp, [(value, state)])"""
  it = interp(w)
  st = absint.State()
  vals = []
  for a in args:
    if isinstance(a, str):
      vals.append(it.region(st, a, regions[a], w))
    elif isinstance(a, BV):
      vals.append(a)
    else:
      vals.append(K(a))
  if assume:
    st = it.assume_some(assume, st)
  outs = it.call_fn(FN['%s_%d' % (fn, w)], None, vals, st)
  if not outs:
    raise facts.AnalysisBroken('%s does not return' % fn)
  return it, outs


def faults(s):
  return sorted({'%s (%s)' % (e[0], e[2]) if len(e) > 2 else e[0] for e in s.log if e[0] in EVENTS})


def as_bit(it, v, s):
  if isinstance(v, bool):
    return ONE if v else ZERO
  if isinstance(v, Aff) and v.const() in (0, 1):
    return ONE if v.const() else ZERO
  if isinstance(v, BV):
    r = [subst(b, it.asg(s)) for b in v.b]
    if all(b == ZERO for b in r[1:]):
      return r[0]
  raise Unsupported('value of a bit: %r' % (v,))


def same_bits(it, s, name, want, w, what):
  """`want(i)` -> Bit, or None for a bit that may be anything."""
  got = it.bits(s, name, w)
  a = it.asg(s)
  for i, g in enumerate(got):
    x = want(i)
    if x is not None and g != subst(x, a):
      return ['%s: bit %d is %r instead of %r' % (what, i, g, subst(x, a))]
  return []


def words(n, w):
  return (n + w - 1) // w


def case(t):
  bad = []
  try:
    return judge(t, bad)
  except Unsupported:
    if bad:
      return bad
    raise


def judge(t, bad):
  """One instance of one obligation -> list of complaints."""
  fn, w, a = t[0], t[1], t[2:]
  src = lambda i: var(('a', i))
  dst = lambda i: var(('r', i))
  if fn == 'get_bit':
    i, = a
    it, outs = run(w, fn, ['a', i], {'a': i // w + 1})
    for v, s in outs:
      bad += faults(s)
      if as_bit(it, v, s) != subst(src(i), it.asg(s)):
        bad.append('bit %d is not returned' % i)
  elif fn == 'set_bit':
    i, = a
    it, outs = run(w, fn, ['r', i], {'r': i // w + 1})
    for v, s in outs:
      bad += faults(s) + same_bits(it, s, 'r', lambda k: ONE if k == i else dst(k), w, 'SetBit(%d)' % i)
  elif fn == 'set_range':
    b, e = a
    it, outs = run(w, fn, ['r', b, e], {'r': words(e, w)})
    for v, s in outs:
      bad += faults(s) + same_bits(it, s, 'r', lambda k: ONE if b <= k < e else dst(k), w, 'range [%d, %d)' % (b, e))
  elif fn in ('ones', 'ones_range'):
    if fn == 'ones':
      b, e = 0, w
      it, outs = run(w, fn, [bitvec.word('a', w)], {})
    else:
      b, e = a
      it, outs = run(w, fn, ['a', b, e], {'a': words(e, w)})
    for v, s in outs:
      bad += faults(s)
      want = it.count(BV([src(i) for i in range(b, e)]), s)
      v = it.load(v, s)
      if isinstance(v, BV):
        v = it.count(v, s) if len(v.b) == 1 else v
      if not isinstance(v, Aff):
        raise Unsupported('count')
      if v != want:
        bad.append('range [%d, %d): the count is not the number of its set bits (difference %r)' % (b, e, v.add(want, -1)))
  elif fn == 'next':
    b, e = a
    it, outs = run(w, fn, ['a', b, e], {'a': words(e, w)})
    for v, s in outs:
      bad += faults(s)
      k = it.load(v, s)
      k = k.const() if isinstance(k, Aff) else None
      if k is None:
        raise Unsupported('position')
      asg = it.asg(s)
      k %= 1 << 64
      if k != e and not b <= k < e:
        bad.append('range [%d, %d): position %d' % (b, e, k))
        continue
      late = [i for i in range(b, k) if asg.get(('a', i)) != 0] if b < e else []
      if late:
        bad.append('range [%d, %d): returns %d although bit %d may be set' % (b, e, k, late[0]))
      if b < e and k < e and asg.get(('a', k)) != 1:
        bad.append('range [%d, %d): returns %d although that bit may be clear' % (b, e, k))
  elif fn in ('high', 'low'):
    x = bitvec.word('a', w)
    it, outs = run(w, fn, [x], {}, [(b, 1) for b in x.b])
    for v, s in outs:
      bad += faults(s)
      k = it.load(v, s).const()
      asg = it.asg(s)
      zero = range(k + 1, w) if fn == 'high' else range(k)
      if not 0 <= k < w or asg.get(('a', k)) != 1 or any(asg.get(('a', i)) != 0 for i in zero):
        bad.append('returns %d for a word whose %sest set bit is another' % (k, fn))
  elif fn == 'and':
    n, = a
    it, outs = run(w, fn, ['a', 'b', 'r', n], {'a': n, 'b': n, 'r': n})
    for v, s in outs:
      bad += faults(s) + same_bits(it, s, 'r', lambda k: op2('&', src(k), var(('b', k))), w, '%d words' % n)
      bad += same_bits(it, s, 'a', src, w, 'source') + same_bits(it, s, 'b', lambda k: var(('b', k)), w, 'source')
  elif fn == 'and_in_place':
    n, = a
    it, outs = run(w, fn, ['a', 'r', n], {'a': n, 'r': n})
    for v, s in outs:
      bad += faults(s) + same_bits(it, s, 'r', lambda k: op2('&', src(k), dst(k)), w, '%d words' % n) + same_bits(it, s, 'a', src, w, 'source')
  elif fn in ('and_offsets', 'copy'):
    n, sa, sr = a
    it, outs = run(w, fn, [n, 'a', sa, 'r', sr], {'a': words(n + sa, w), 'r': words(n + sr, w)})
    what = '%d bits from offset %d to offset %d' % (n, sa, sr)
    inside = lambda k: sr <= k < sr + n
    if fn == 'copy':
      want = lambda k: src(k - sr + sa) if inside(k) else dst(k)
    else:
      want = lambda k: op2('&', src(k - sr + sa), dst(k)) if inside(k) else None
    for v, s in outs:
      bad += [x + ' (%s)' % what if x.startswith('out') else x for x in faults(s)] + same_bits(it, s, 'r', want, w, what) + same_bits(it, s, 'a', src, w, 'source, ' + what)
  return bad


TITLE = {'get_bit': 'GetBit', 'set_bit': 'SetBit', 'set_range': 'SetBitsInRange', 'ones': 'CountOnes', 'ones_range': 'GetOnesCountInRange', 'next': 'FindNextSetBitInVector',
         'high': 'BitScanReverse', 'low': 'FindLSBSetNonZero', 'and': 'LogicalAnd', 'and_in_place': 'InPlaceLogicalAnd', 'and_offsets': 'InplaceLogicalAndWithOffsets', 'copy': 'CopyBits'}


def cases(thorough):
  for w in (32, 64):
    mid = (0, 1, w // 2 - 1, w // 2, w - 1)
    edge = sorted({q * w + d for q in range(4) for d in (-1, 0, 1, 5, w // 2)} & set(range(3 * w + 2)))
    for i in range(3 * w):
      yield ('get_bit', w, i)
      yield ('set_bit', w, i)
    starts = range(w + 1) if thorough else edge
    ends = range(4 * w + 2) if thorough else sorted(set(edge) | set(range(2 * w + 2)) | {4 * w - 1, 4 * w})
    for b in starts:
      for e in ends:
        if b <= e:
          yield ('set_range', w, b, e)
          yield ('ones_range', w, b, e)
    for b in edge:
      for e in (edge if not thorough else range(3 * w + 2)):
        yield ('next', w, b, e)
    yield ('ones', w)
    yield ('high', w)
    yield ('low', w)
    for n in range(34 if thorough else 26):
      yield ('and', w, n)
      yield ('and_in_place', w, n)
    offs = range(w) if thorough and w == 32 else sorted(set(mid) | {5, w - 6})
    sizes = range(3 * w + 2) if w == 32 else sorted({q * w + d - x for q in range(4) for d in (-1, 0, 1, 7) for x in list(mid) + [5]} & set(range(3 * w + 2)))
    for sa in offs:
      for sr in offs:
        for n in sizes:
          yield ('and_offsets', w, n, sa, sr)
          yield ('copy', w, n, sa, sr)


def main(c):
  f = facts.load(facts.Scope(inst=['arolla/dense_array/bitmap', 'arolla/util/', '@tu/'], extra=[os.path.join(facts.VERIF, 'tu', 'bits.cc')]))
  setup(f)
  for fn in TITLE:
    for w in (32, 64):
      c.need('%s_%d' % (fn, w) in FN, '%s for %d-bit words' % (fn, w))
      site('%s_%d' % (fn, w))
  todo = list(cases(os.environ.get('VERIF_TIER') == 'thorough'))
  res = parcases.run(case, todo, 64)
  und = set()
  seen = set()
  for t, bad, un in res:
    where = SITE['%s_%d' % (t[0], t[1])]
    c.count('cases')
    c.count(TITLE[t[0]])
    if un:
      und.add((where, '%s: %s' % (TITLE[t[0]], un)))
      continue
    for x in bad:
      c.bad(where, '%s on %d-bit words: %s' % (TITLE[t[0]], t[1], x), key='%s|%d|%s' % (t[0], t[1], x))
    if not bad:
      c.ok(None if t[:2] in seen else '%s on %d-bit words' % (TITLE[t[0]], t[1]))
      seen.add(t[:2])
  for x in sorted(und):
    c.undecided(*x)


if __name__ == '__main__':
  report.main('D01', RULE, main)
