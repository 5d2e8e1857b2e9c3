"""D03: dense arrays."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import arrays
from arrays import FN, Run, elem
from absint import Aff, Ptr, Ref, Const, Unsupported
import bitvec
from bitvec import BV, ONE, ZERO, var, subst
from containers import K, idx
import facts
import parcases
import report

RULE = ('Abstract interpretation of the instances of dense_array/dense_array.h (with the bitmaps and buffers beneath, from source) over values and presence bits that are all symbolic, for an '
        'enumerated family of sizes, bit offsets, slices and builder calls that covers the word boundaries: each view shows element i with the value and presence of element i, callbacks see '
        'all elements once and in order, results own what they show (or nothing, for unowned copies), sources are unchanged, bit offsets stay below the word size, nothing else is touched.')
W = 32
FILES = ('arolla/dense_array/dense_array.h',)
B = lambda i: var(('vm', i))


def case(t):
  bad = []
  try:
    judge(t, bad)
  except Unsupported:
    if not bad:
      raise
  return [t[0] + ': ' + x for x in dict.fromkeys(bad)]


def parts(r, v, s):
  """-> (value pointer, values, owners, bitmap pointer, words, owners, bit offset)"""
  it = r.it
  loc = v.loc
  vals = r.show(Ref(loc + ('values',)), s)
  bits = r.show(Ref(loc + ('bitmap',)), s, 'm')
  off = it.load(Ref(loc + ('bitmap_bit_offset',)), s).const()
  if off is None:
    raise Unsupported('bit offset')
  return vals + bits + (off,)


def elements(r, v, s, bad, what, owned=None):
  """-> [(value, presence bit)] with the rules of the representation."""
  vp, vals, vo, mp, words, mo, off = parts(r, v, s)
  n = len(vals)
  if not 0 <= off < W:
    bad.append('%s: bit offset %d' % (what, off))
  if words and len(words) != (n + off + W - 1) // W:
    bad.append('%s: a bitmap of %d words for %d elements at offset %d' % (what, len(words), n, off))
  if owned:
    bad.extend(r.alive(vp, vo, n, what + ': values') + r.alive(mp, mo, len(words), what + ': bitmap'))
  flat = [b for w in words for b in (w.b if w is not None else [None] * W)]
  pres = [ONE] * n if not words else [flat[off + i] if off + i < len(flat) else None for i in range(n)]
  return vals, pres, vo, mo


def presence(r, s, got, want, what):
  a = r.it.asg(s)
  for i, (g, w) in enumerate(zip(got, want)):
    if g is None or subst(g, a) != subst(w, a):
      return ['%s: presence of element %d is %r instead of %r' % (what, i, g, subst(w, a))]
  return ['%s: %d elements instead of %d' % (what, len(got), len(want))] if len(got) != len(want) else []


def judge(t, bad):
  fn, a = t[0], t[1:]
  what = ' '.join(str(x) for x in a)
  r = Run(order=a[-1] if fn == 'a_build' else ())
  it = r.it

  def result(outs, vals, pres, owned=True, fac=True):
    for v, s in outs:
      if fac:
        bad.extend(r.factories(s, what))
      gv, gp, vo, mo = elements(r, v, s, bad, what, owned)
      bad.extend(r.faults(s))
      bad.extend(r.same(gv, vals, s, what))
      bad.extend(presence(r, s, gp, pres, what))
      yield v, s, vo, mo

  def intact(arr, s, n, o, bm, owned=True):
    gv, gp, vo, mo = elements(r, arr, s, bad, what + ': the source', False)
    bad.extend(r.same(gv, [elem('v', i) for i in range(n)], s, what + ': the source'))
    bad.extend(presence(r, s, gp, [B(o + i) if bm else ONE for i in range(n)], what + ': the source'))

  if fn in ('a_size', 'a_empty', 'a_full', 'a_count', 'a_all_missing', 'a_all_present', 'a_is_owned', 'a_mask_size'):
    n, o, bm = a[:3]
    owned = a[3] if len(a) > 3 else True
    arr = r.array('v', n, o, bm, owned)
    for v, s in r.call(fn, arr):
      bad.extend(r.faults(s))
      pres = [B(o + i) for i in range(n)] if bm else []
      full = K(n) if not bm else it.count(BV(pres), s)
      if fn in ('a_size', 'a_mask_size'):
        if r.num(v, s).const() != n:
          bad.append('%s: %r instead of %d' % (what, r.num(v, s), n))
        continue
      if fn == 'a_count':
        if r.num(v, s) != full:
          bad.append('%s: not the number of present elements' % what)
        continue
      for x, s2 in it.truth(v, s):
        asg = it.asg(s2)
        if fn in ('a_empty', 'a_is_owned'):
          want = n == 0 if fn == 'a_empty' else bool(owned or not n)
          if x != want:
            bad.append('%s: %r' % (what, x))
        elif not bm:
          if x != (n == 0 if fn == 'a_all_missing' else True):
            bad.append('%s: %r although all are present' % (what, x))
        else:
          bit = 0 if fn == 'a_all_missing' else 1
          if x and any(asg.get(('vm', o + i)) != bit for i in range(n)):
            bad.append('%s: yes although an element may be otherwise' % what)
          if not x and it.assume_all([(B(o + i), bit) for i in range(n)], s2) is not None:
            bad.append('%s: no although all elements may be so' % what)
  elif fn in ('a_present', 'a_at', 'a_mask_present'):
    n, o, bm, i = a
    for v, s in r.call(fn, r.array('v', n, o, bm), i):
      bad.extend(r.faults(s))
      want = subst(B(o + i), it.asg(s)) if bm else ONE
      if fn == 'a_at':
        (e,) = [e for e in s.log if e[0] == 'seen']
        if r.bit(e[2], s) != want:
          bad.append('%s: presence' % what)
        if want != ZERO:
          bad.extend(r.same([it.bv(it.load(e[3], s), W)], [elem('v', i)], s, what))
      elif r.bit(v, s) != want:
        bad.append('%s: presence' % what)
  elif fn in ('a_owned', 'a_unowned', 'a_aligned', 'a_aligned_moved'):
    n, o, bm, owned = a
    arr = r.array('v', n, o, bm, owned)
    outs = r.call(fn, arr, *([] if fn == 'a_unowned' else [r.fac]))
    for v, s, vo, mo in result(outs, [elem('v', i) for i in range(n)], [B(o + i) if bm else ONE for i in range(n)], fn == 'a_owned' or owned and fn != 'a_unowned'):
      if fn == 'a_unowned' and (vo or mo):
        bad.append('%s: owns memory' % what)
      if fn.startswith('a_aligned') and it.load(Ref(v.loc + ('bitmap_bit_offset',)), s) != K(0):
        bad.append('%s: a bit offset is left' % what)
      if fn != 'a_aligned_moved':
        intact(arr, s, n, o, bm)
  elif fn in ('a_slice', 'a_slice_twice'):
    n, o, bm, x, k = a[:5]
    arr = r.array('v', n, o, bm)
    outs = r.call(fn, arr, x, k, *a[5:])
    if fn == 'a_slice_twice':
      x, k = x + a[5], a[6]
    for v, s, vo, mo in result(outs, [elem('v', i) for i in range(x, x + k)], [B(o + i) if bm else ONE for i in range(x, x + k)]):
      intact(arr, s, n, o, bm)
  elif fn in ('a_each', 'a_each_group', 'a_iterate', 'a_each_present'):
    n, o, bm = a
    for v, s in r.call(fn, r.array('v', n, o, bm)):
      bad.extend(r.faults(s))
      asg = it.asg(s)
      seen = [e[1:] for e in s.log if e[0] == 'seen']
      want = [i for i in range(n) if fn != 'a_each_present' or not bm or asg.get(('vm', o + i), 1)]
      ids = [r.num(e[0], s).const() for e in seen]
      if ids != want:
        bad.append('%s: the elements seen are %s instead of %s' % (what, ids[:8], want[:8]))
        continue
      for i, e in zip(want, seen):
        w = subst(B(o + i), asg) if bm else ONE
        if r.bit(e[1], s) != w:
          bad.append('%s: presence of element %d' % (what, i))
        if w != ZERO:
          bad.extend(r.same([it.bv(it.load(e[2], s), W)], [elem('v', i)], s, '%s: element %d' % (what, i)))
  elif fn == 'a_equal':
    n, m, bx, by, ox, oy = a
    x, y = r.array('v', n, ox, bx), r.array('w', m, oy, by)
    for i in range(max(n, m)):
      r.st.heap[('v', idx(i))] = BV([var(('a', i))] + [ZERO] * (W - 1))
      if i < m:
        r.st.heap[('w', idx(i))] = K(0)
    for v, s in [z for v, s in r.call(fn, x, y) for z in it.truth(v, s)]:
      bad.extend(r.faults(s))
      asg = it.asg(s)
      if n != m:
        if v:
          bad.append('%s: arrays of different sizes are equal' % what)
        continue
      verdict = True
      for i in range(n):
        p = asg.get(('vm', ox + i)) if bx else 1
        q = asg.get(('wm', oy + i)) if by else 1
        z = asg.get(('a', i))
        if p is not None and q is not None and p != q or p == q == 1 and z == 1:
          verdict = False
          break
        if not (p == q == 0 or p == q == 1 and z == 0):
          verdict = None
      if verdict is not v:
        bad.append('%s: %s although %s' % (what, 'equal' if v else 'different', 'an element may differ' if v else 'all elements may be equal'))
  elif fn == 'a_build':
    n, k, order = a
    vals, pres = [None] * n, [ZERO] * n
    outs = r.call(fn, n, k, r.fac)
    for v, s in outs:
      asg = it.asg(s)
      vals, pres = [None] * n, [ZERO] * n
      for i in range(k):
        p = subst(var(('in', i)), asg)
        if p.vs:
          raise Unsupported('an optional value of unknown presence')
        if p == ONE:
          vals[order[i]], pres[order[i]] = elem('val', i), ONE
      for _ in result([(v, s)], vals, pres):
        pass
  elif fn == 'a_build_cut':
    n, m = a
    set_ = set(range(m - 1, -1, -2))
    for _ in result(r.call(fn, n, m, r.fac), [elem('val', i) if i in set_ else None for i in range(m)], [ONE if i in set_ else ZERO for i in range(m)]):
      pass
  elif fn == 'a_build_range':
    n, x, c, d, e = a
    vals, pres = [None] * n, [ZERO] * n
    vals[x:x + c], pres[x:x + c] = [elem('val', 1)] * c, [ONE] * c
    vals[d:d + e], pres[d:d + e] = [elem('val', 2)] * e, [ONE] * e
    for _ in result(r.call(fn, n, x, c, d, e, r.fac), vals, pres):
      pass
  elif fn == 'a_build_std':
    n, i, p = a
    vals, pres = [None] * n, [ZERO] * n
    if p:
      for j in (i, n - 1):
        vals[j], pres[j] = elem('val', i), ONE
    for _ in result(r.call(fn, n, i, bool(p), r.fac), vals, pres):
      pass
  elif fn == 'a_create_full':
    n, = a
    p = it.region(r.st, 'v', n, W) if n else Ptr(None)
    for _ in result(r.call(fn, p, it.shift(p, K(n), r.st) if n else p, r.fac), [elem('v', i) for i in range(n)], [ONE] * n):
      pass
  elif fn == 'a_create':
    n, = a
    for i in range(n):
      r.st.heap[('o', idx(i), 'present')] = BV([var(('in', i))])
      r.st.heap[('o', idx(i), 'value')] = elem('val', i)
    sp = ('o$span',)
    it.new_span(r.st, sp, Ptr(('o', idx(0))), K(n))
    from absint import Obj
    for v, s in r.call(fn, Obj(sp), r.fac):
      vals = [elem('val', i) for i in range(n)]
      asg = it.asg(s)
      for i in range(n):
        if asg.get(('in', i)) == 0 or asg.get(('in', i)) is None:
          pass
      for _ in result([(v, s)], vals, [var(('in', i)) for i in range(n)]):
        pass
  elif fn in ('a_const', 'a_none'):
    n, = a
    for _ in result(r.call(fn, n, r.fac), [elem('val', 1) if fn == 'a_const' else None] * n, [ONE if fn == 'a_const' else ZERO] * n):
      pass


NAMES = ('a_size', 'a_empty', 'a_full', 'a_count', 'a_all_missing', 'a_all_present', 'a_present', 'a_is_owned', 'a_at', 'a_owned', 'a_unowned', 'a_slice', 'a_slice_twice', 'a_aligned', 'a_aligned_moved',
         'a_mask_size', 'a_mask_present', 'a_each', 'a_each_present', 'a_each_group', 'a_iterate', 'a_equal', 'a_build', 'a_build_cut', 'a_build_range', 'a_build_std', 'a_create', 'a_create_full',
         'a_const', 'a_none')


def cases(thorough):
  sizes = range(0, 71) if thorough else (0, 1, 2, 5, 30, 31, 32, 33, 63, 64, 65)
  offs = range(W) if thorough else (0, 1, 7, 30, 31)
  for n in sizes:
    for o, bm in [(o, True) for o in offs] + [(0, False)]:
      for f in ('a_size', 'a_empty', 'a_count', 'a_mask_size', 'a_each', 'a_each_group'):
        yield (f, n, o, bm)
      for f in ('a_full', 'a_all_missing', 'a_all_present'):
        yield (f, n, o, bm)
      if n <= 8:
        yield ('a_each_present', n, o, bm)
        yield ('a_iterate', n, o, bm)
      for owned in (True, False):
        for f in ('a_owned', 'a_unowned', 'a_aligned', 'a_aligned_moved', 'a_is_owned'):
          if f != 'a_is_owned' or n:
            yield (f, n, o, bm, owned)
      for i in sorted({0, 1, n // 2, n - 1, 31, 32} & set(range(n))):
        for f in ('a_present', 'a_at', 'a_mask_present'):
          yield (f, n, o, bm, i)
      xs = sorted({0, 1, 2, 30, 31, 32, 33, n // 2, n - 1, n} & set(range(n + 1)))
      for x in xs:
        for k in sorted({0, 1, 31, 32, 33, n - x} & set(range(n - x + 1))):
          yield ('a_slice', n, o, bm, x, k)
          if n in (33, 65):
            for y in sorted({0, 1, 31, k // 2} & set(range(k + 1))):
              yield ('a_slice_twice', n, o, bm, x, k, y, k - y)
              yield ('a_slice_twice', n, o, bm, x, k, y, min(1, k - y))
  for n in range(3):
    for m in range(3):
      for bx, ox in ((True, 0), (True, 31), (False, 0)):
        for by, oy in ((True, 0), (True, 5), (False, 0)):
          yield ('a_equal', n, m, bx, by, ox, oy)
  for n, order in ((1, (0,)), (3, (2, 0, 1)), (3, (1, 1)), (40, (39, 0, 31, 32)), (33, (32, 32, 0, 32))):
    for k in range(len(order) + 1):
      yield ('a_build', n, k, order)
  for n in (0, 1, 2, 31, 32, 33, 64, 65, 400):
    for m in sorted({0, 1, 2, 31, 32, 33, 64, n} & set(range(n + 1))):
      yield ('a_build_cut', n, m)
    if n:
      for x in sorted({0, 1, 31, 32, n - 1, n} & set(range(n + 1))):
        for c in sorted({0, 1, 32, n - x} & set(range(n - x + 1))):
          for d in sorted({0, 1, n // 2} & set(range(n))):
            for e in sorted({0, 1, n - d} & set(range(n - d + 1))):
              if n < 400:
                yield ('a_build_range', n, x, c, d, e)
      for i in sorted({0, n // 2, n - 1}):
        yield ('a_build_std', n, i, 0)
        yield ('a_build_std', n, i, 1)
    for f in ('a_create_full', 'a_const', 'a_none') + (('a_create',) if n < 70 else ()):
      yield (f, n)


def load():
  return facts.load(facts.Scope(inst=['arolla/dense_array/', 'arolla/memory/', 'arolla/util/', '@tu/'], extra=[os.path.join(facts.VERIF, 'tu', 'dense.cc')]))


def main(c):
  arrays.setup(load())
  parcases.check(c, case, list(cases(os.environ.get('VERIF_TIER') == 'thorough')), NAMES, FN, {f: arrays.site(f, FILES) for f in NAMES if f in FN})


if __name__ == '__main__':
  report.main('D03', RULE, main)
