"""B01: buffers show exactly the values given to them and keep them alive."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import arrays
from arrays import FN, Run, elem
from absint import Aff, Ptr, Ref, Const, Unsupported
import bitvec
from bitvec import BV, ONE, ZERO, var, subst
from containers import K, idx
import facts
import parcases
import report

RULE = ('Abstract interpretation of the instances of memory/simple_buffer.h over regions of the exact size with symbolic contents, for every operation of buffers and builders and an enumerated '
        'family of sizes, offsets and orders (including sizes around the shrinking and the zero-buffer thresholds): every element shown is the one given, the handle of a result owns the memory '
        'it shows or is null exactly for unowned results, sources are unchanged, memory comes from the given factory, nothing outside the memory is touched.')
W = 32
FILES = ('arolla/memory/simple_buffer.h', 'arolla/memory/')
VAL = lambda n, a=0: [elem('val', i) for i in range(a, a + n)]
SRC = lambda n, a=0: [elem('v', i) for i in range(a, a + n)]


def case(t):
  bad = []
  try:
    judge(t, bad)
  except Unsupported:
    if not bad:
      raise
  return [t[0] + ': ' + x for x in dict.fromkeys(bad)]


def judge(t, bad):
  fn, a = t[0], t[1:]
  what = ' '.join(str(x) for x in a)
  r = Run(order=a[-1] if fn == 'b_reshuffle' else ())
  it = r.it

  def built(outs, want, fresh=True):
    for v, s in outs:
      bad.extend(r.factories(s, what))
      p, got, own = r.show(v, s)
      bad.extend(r.faults(s))
      bad.extend(r.same(got, want, s, what))
      bad.extend(r.alive(p, own, len(got), what))
      if not got and own:
        pass        # an empty buffer may or may not hold memory
      if fresh and got and p.loc and p.loc[0] == 'v':
        bad.append('%s: shows foreign memory' % what)

  def intact(s, name, n):
    bad.extend(r.same([it.bv(s.heap.get((name, idx(i))), W) for i in range(n)], [elem(name, i) for i in range(n)], s, what + ': the source'))

  if fn in ('b_build', 'b_build_all', 'b_build_late', 'b_insert', 'b_insert_at', 'b_setn', 'b_setconst', 'b_copy'):
    n = a[0]
    any_ = [None] * n
    if fn == 'b_build':
      want = VAL(a[1])
    elif fn in ('b_build_all', 'b_build_late'):
      want = VAL(n)
    elif fn == 'b_insert':
      want = VAL(a[1]) + [None] * a[2] + VAL(a[3], a[1] + a[2])
    elif fn == 'b_insert_at':
      want = [None] * a[1] + VAL(a[2], a[1])
    elif fn == 'b_setn':
      want = VAL(n)
      want[a[1]:a[1] + a[2]] = VAL(a[2], 1000)
    elif fn == 'b_setconst':
      want = VAL(n)
      want[a[1]:a[1] + a[2]] = [elem('val', 1000)] * a[2]
    else:
      want = VAL(n)
      want[a[2]] = want[a[1]]
    built(r.call(fn, *a, r.fac), want)
  elif fn == 'b_reshuffle':
    k, n, dflt, copies, lo, hi, which, m, order = a
    src = r.buffer('v', k)
    want = [elem('val', 1000) if dflt else None] * n
    for i in range(copies):
      want[i] = elem('v', order[i])
    want[lo:hi] = [elem('v', which)] * (hi - lo)
    outs = r.call(fn, src, n, bool(dflt), copies, lo, hi, which, m, r.fac)
    built(outs, want[:m])
    for v, s in outs:
      intact(s, 'v', k)
  elif fn == 'b_uninit':
    built(r.call(fn, a[0], r.fac), [None] * a[0])
  elif fn == 'b_create':
    n, = a
    p = it.region(r.st, 'v', n, W) if n else Ptr(None)
    built(r.call(fn, p, it.shift(p, K(n), r.st) if n else p, r.fac), SRC(n))
  elif fn in ('b_slice', 'b_slice_moved', 'b_tail', 'b_tail_moved', 'b_slice_twice', 'b_shallow', 'b_deep'):
    n, owned = a[0], a[1]
    src = r.buffer('v', n, owned)
    rest = a[2:]
    o = 0 if fn in ('b_shallow', 'b_deep') else rest[0]
    k = n if fn in ('b_shallow', 'b_deep') else n - o if fn.startswith('b_tail') else rest[1]
    if fn == 'b_slice_twice':
      o, k = rest[0] + rest[2], rest[3]
    outs = r.call(fn, src, *rest, *([r.fac] if fn == 'b_deep' else []))
    for v, s in outs:
      bad.extend(r.factories(s, what))
      p, got, own = r.show(v, s)
      bad.extend(r.faults(s))
      bad.extend(r.same(got, SRC(k, o), s, what))
      intact(s, 'v', n)
      if got:
        if fn == 'b_deep':
          bad.extend(r.alive(p, own, k, what))
        elif own != (['v'] if owned and fn != 'b_shallow' else []):
          bad.append('%s: %s' % (what, 'the result is not kept alive' if not own else 'the result owns memory it should not'))
        elif p.loc != ('v', idx(o)):
          bad.append('%s: shows other memory than the buffer' % what)
      if not fn.endswith('moved'):
        p, got, own = r.show(src, s)
        bad.extend(r.same(got, SRC(n), s, what + ': the source'))
        if n and own != (['v'] if owned else []):
          bad.append('%s: the source lost its memory' % what)
  elif fn in ('b_len', 'b_is_owner', 'b_is_empty', 'b_usage'):
    n, owned = a
    for v, s in r.call(fn, r.buffer('v', n, owned)):
      bad.extend(r.faults(s))
      got = r.num(v, s).const()
      want = {'b_len': n, 'b_is_owner': int(owned or not n), 'b_is_empty': int(not n), 'b_usage': 4 * n}[fn]
      if got != want:
        bad.append('%s: %r instead of %r' % (what, got, want))
  elif fn in ('b_at', 'b_front', 'b_back', 'b_begin', 'b_end', 'b_span_of'):
    n, i = a
    for v, s in r.call(fn, r.buffer('v', n, null=False, first=2), *([i] if fn == 'b_at' else [])):
      bad.extend(r.faults(s))
      if fn == 'b_span_of':
        (q, s), = it.call_fn(FN['b_span_data'], None, [v], s)
        (k, s), = it.call_fn(FN['b_span_size'], None, [v], s)
        if q != Ptr(('v', idx(2))) or k.const() != n:
          bad.append('%s: not the span of the buffer' % what)
      elif fn in ('b_begin', 'b_end'):
        if v != Ptr(('v', idx(2 + (n if fn == 'b_end' else 0)))):
          bad.append('%s: not the bounds of the buffer' % what)
      else:
        k = {'b_at': i, 'b_front': 0, 'b_back': n - 1}[fn]
        bad.extend(r.same([it.bv(it.load(v, s), W)], [elem('v', k + 2)], s, what))
  elif fn in ('b_equal', 'b_differ'):
    n, m, form = a
    eq = fn == 'b_equal'
    x = r.buffer('v', n)
    if form == 'self':
      y = x
    else:
      y = r.buffer('w', m)
      for i in range(m):
        st = r.st
        if form == 'zero':
          st.heap[('v', idx(i))] = BV([var(('a', i))] + [ZERO] * (W - 1))
          st.heap[('w', idx(i))] = K(0)
        else:
          st.heap[('w', idx(i))] = elem('v', i)
    outs = [z for v, s in r.call(fn, x, y) for z in it.truth(v, s)]
    for v, s in outs:
      bad.extend(r.faults(s))
      asg = it.asg(s)
      if form in ('same', 'self') or n != m:
        if v != ((n == m or form == 'self') == eq):
          bad.append('%s: buffers of %s' % (what, 'equal elements differ' if form in ('same', 'self') and (n == m or form == 'self') else 'different sizes are equal'))
      elif (v == eq) and any(asg.get(('a', i)) != 0 for i in range(n)):
        bad.append('%s: equal although an element may differ' % what)
      elif (v != eq) and it.assume_all([(var(('a', i)), 0) for i in range(n)], s) is not None:
        bad.append('%s: different although all elements may be equal' % what)


NAMES = ('b_build', 'b_build_all', 'b_build_late', 'b_insert', 'b_insert_at', 'b_setn', 'b_setconst', 'b_copy', 'b_reshuffle', 'b_uninit', 'b_create', 'b_slice', 'b_slice_moved', 'b_tail',
         'b_tail_moved', 'b_slice_twice', 'b_shallow', 'b_deep', 'b_len', 'b_is_owner', 'b_is_empty', 'b_usage', 'b_at', 'b_front', 'b_back', 'b_begin', 'b_end', 'b_span_of', 'b_equal', 'b_differ')


def cases(thorough):
  top = 9 if thorough else 6
  for n in range(top):
    for m in range(n + 1):
      yield ('b_build', n, m)
    yield ('b_build_all', n)
    yield ('b_build_late', n)
    for x in range(n + 1):
      for k in range(n - x + 1):
        yield ('b_setn', n, x, k)
        yield ('b_setconst', n, x, k)
        yield ('b_insert_at', n, x, k)
        for z in range(n - x - k + 1):
          yield ('b_insert', n, x, k, z)
    for i in range(n):
      for j in range(n):
        yield ('b_copy', n, i, j)
    yield ('b_create', n)
    yield ('b_uninit', n)
    for owned in (True, False):
      for f in ('b_shallow', 'b_deep', 'b_len', 'b_is_owner', 'b_is_empty', 'b_usage'):
        yield (f, n, owned)
      for o in range(n + 1):
        yield ('b_tail', n, owned, o)
        yield ('b_tail_moved', n, owned, o)
        for k in range(n - o + 1):
          yield ('b_slice', n, owned, o, k)
          yield ('b_slice_moved', n, owned, o, k)
          for p in range(k + 1):
            for q in range(k - p + 1):
              yield ('b_slice_twice', n, owned, o, k, p, q)
    for i in range(n):
      yield ('b_at', n, i)
    for f in ('b_begin', 'b_end', 'b_span_of') + (('b_front', 'b_back') if n else ()):
      yield (f, n, 0)
    for f in ('b_equal', 'b_differ'):
      yield (f, n, n, 'self')
      for m in range(top):
        yield (f, n, m, 'same')
      yield (f, n, n, 'zero')
  # around the thresholds of 1 KB (shrinking) and of the shared zero buffer
  for n in (255, 256, 257, 258, 300):
    for m in sorted({0, 1, 2, n - 257, n - 256, n - 255, n} & set(range(n + 1))):
      yield ('b_build', n, m)
      yield ('b_insert', n, 0, 0, m)
  for n in (4095, 4096, 4097, 16383, 16384, 16385):
    yield ('b_uninit', n)
  for k, order in ((1, (0,)), (3, (2, 0, 1, 1)), (3, (1, 1, 0, 2, 0))):
    for n in (1, 3, 5):
      for dflt in (0, 1):
        for copies in range(min(n, len(order)) + 1):
          for lo, hi in ((0, 0), (0, n), (n // 2, n), (n - 1, n)):
            for m in {0, 1, n - 1, n}:
              yield ('b_reshuffle', k, n, dflt, copies, lo, hi, k - 1, m, order)


def load():
  return facts.load(facts.Scope(inst=['arolla/dense_array/', 'arolla/memory/', 'arolla/util/', '@tu/'], extra=[os.path.join(facts.VERIF, 'tu', 'dense.cc')]))


def main(c):
  arrays.setup(load())
  parcases.check(c, case, list(cases(os.environ.get('VERIF_TIER') == 'thorough')), NAMES, FN, {f: arrays.site(f, FILES) for f in NAMES if f in FN})


if __name__ == '__main__':
  report.main('B01', RULE, main)
