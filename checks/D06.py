"""D06: edges between dense arrays mean the same grouping in every representation."""
import itertools
import os
import sys
import zlib
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import arrays
from arrays import FN
import absint
from absint import Aff, Ptr, Ref, Obj, Const, Top, Fn, Unsupported
from bitvec import BV, ONE, ZERO, subst
from containers import K, idx
import D04
import facts
import parcases
import report
import statuses
from statuses import OK, is_status
import tree as T

RULE = ('Abstract interpretation of dense_array/edge.cc over edges of every weak ordering of their entries up to a small size, in every representation (split points, full and partial mappings, bit offsets, arbitrary values under missing entries): '
        'the denoted relation of children to parents is compared before and after each construction, conversion, comparison and composition; exactly the representable inputs are accepted; nothing outside the arrays is read.')
FILES = ('arolla/dense_array/edge.',)
W = 32
JUNK = 9


TEXT = ('std::basic_string_view', 'absl::string_view', 'std::basic_string', 'absl::AlphaNum', 'absl::str_format_internal::FormatSpecTemplate', 'absl::str_format_internal::FormatArgImpl')


class I(D04.I):

  def construct0(self, n, args, st):
    if (n.get('cls') or '') in TEXT:
      return [(Const('text'), st)]
    return super().construct0(n, args, st)

  def const(self, v, st, what):
    v = self.load(v, st)
    if isinstance(v, BV):
      a = self.asg(st)
      bs = [subst(b, a) for b in v.b]
      if all(not b.vs for b in bs):
        return sum((b.tt & 1) << i for i, b in enumerate(bs))
    if isinstance(v, bool):
      return int(v)
    if isinstance(v, Const) and isinstance(v.v, tuple) and v.v[0] == 'enum':
      return {'MAPPING': 1, 'SPLIT_POINTS': 2}.get(T.short(v.v[1]), 0)
    if not isinstance(v, Aff) or v.const() is None:
      raise Unsupported(what)
    return v.const()

  def model(self, name, n, obj, args, st):
    sh = T.short(name)
    if sh == 'With' and len(args) == 1 and isinstance(self.load(args[0], st), Fn):
      return self.apply_lambda(self.load(args[0], st), [statuses.error('invalid')], st)
    if sh in ('MakeSpan', 'MakeConstSpan') and len(args) == 2:
      a, b = self.load(args[0], st), self.load(args[1], st)
      if isinstance(a, Ptr) and isinstance(b, Ptr):
        loc = st.fresh('span')
        self.new_span(st, loc, a, self.distance(b, a))
        return [(Obj(loc, n), st)]
    if sh in ('StrFormat', 'StrCat') or name.startswith('std::basic_string'):
      return [(Const('text'), st)]
    if name == 'absl::InvalidArgumentError':
      return [(statuses.error('invalid'), st)]
    if name.startswith('std::is_sorted') and len(args) == 2:
      a, b = self.load(args[0], st), self.load(args[1], st)
      k = self.distance(b, a)
      k = k.const() if isinstance(k, Aff) else None
      if k is None:
        raise Unsupported(name)
      v = [self.load(Ref(self.shift(a, K(i), st).loc), st) for i in range(k)]
      if not all(isinstance(x, Aff) for x in v):
        raise Unsupported('sorted values')
      res = True
      for x, y in zip(v, v[1:]):
        lo, hi = absint.rng(y.add(x, -1), st)
        if hi < 0:
          res = False
        elif lo < 0:
          raise Unsupported('order of two entries')
      return [(res, st)]
    if sh == '__builtin_mul_overflow':
      a, b = [self.const(x, st, 'factor') for x in args[:2]]
      p = self.load(args[2], st)
      v = a * b
      w = (v + 2 ** 63) % 2 ** 64 - 2 ** 63
      self.store(p.loc, K(w), st)
      return [(v != w, st)]
    return super().model(name, n, obj, args, st)


class Run(D04.Run):
  INTERP = I

  def longs(self, name, vals, mask, off):
    """mask: None or a string of 0 and 1; missing entries hold junk."""
    n = len(vals)
    p = self.it.region(self.st, name, n, 64) if n else Ptr(None)
    for i, v in enumerate(vals):
      self.st.heap[(name, idx(i))] = v if isinstance(v, Aff) else K(v)
    (sp, self.st), = self.it.call_fn(FN['l_span'], None, [p, K(n)], self.st)
    v = self.make('l_make', [Const(('owner', name)) if n else Ptr(None), sp], name + '$buf')
    words = (n + off + W - 1) // W if mask is not None else 0
    m = self.buffer(name + 'm', words, True, 'm')
    for w in range(words):
      self.st.heap[(name + 'm', idx(w))] = BV([(ONE if mask[w * W + i - off] == '1' else ZERO) if 0 <= w * W + i - off < n else arrays.elem(name + 'm', w).b[i] for i in range(W)])
    return self.make('l_array', [v, m, K(off)], name + '$arr')

  def some(self, name, lo, hi):
    """Any number of a range."""
    self.st.iv[name] = (lo, hi)
    return Aff({name: 1})

  def edge(self, name, e):
    """e: ('s', points) | ('m', parents, mapping, mask, offset)"""
    if e[0] == 's':
      return self.make('e_split', [self.longs(name, e[1], None, 0)], name + '$edge')
    return self.make('e_mapping', [self.longs(name, e[2], e[3], e[4]), K(e[1])], name + '$edge')

  def get(self, fn, e, s):
    (v, s), = self.it.call_fn(FN[fn], None, [e], s)
    return v

  def show_longs(self, loc, s):
    (p, s), = self.it.call_fn(FN['l_begin'], None, [Ref(loc)], s)
    (n, s), = self.it.call_fn(FN['l_len'], None, [Ref(loc)], s)
    if n.const() is None:
      raise Unsupported('size of a buffer')
    out = []
    for i in range(n.const()):
      l = self.it.shift(p, K(i), s).loc if p.loc else None
      v = self.it.load(Ref(l), s) if l is not None and l[:1] not in s.dead else None
      out.append(None if not isinstance(v, Aff) else v if v.const() is None else v.const())
    return p, out, [h.v[1] for h in self.handle(loc, s)]

  def means(self, e, s, bad, what):
    """-> (type, parents, children, [parent or None]) of an edge."""
    t, np, nc = [self.it.const(self.get(f, e, s), s, f) for f in ('e_type', 'e_parents', 'e_children')]
    loc = lambda v: v.loc
    vp, vals, vo = self.show_longs(loc(self.get('e_values', e, s)), s)
    mp, words, mo = self.show(self.get('e_bitmap', e, s), s, 'm')
    off = self.it.const(self.get('e_offset', e, s), s, 'offset')
    bad.extend(self.alive(vp, vo, len(vals), what + ': values') + self.alive(mp, mo, len(words), what + ': bitmap'))
    flat = [b for w in words for b in (w.b if w is not None else [None] * W)]
    if words and len(flat) < off + len(vals):
      bad.append('%s: a bitmap of %d words for %d entries' % (what, len(words), len(vals)))
      return None
    pres = [True] * len(vals) if not words else [None if flat[off + i] is None or flat[off + i].vs else bool(flat[off + i].tt & 1) for i in range(len(vals))]
    if None in pres or any(v is None for v, q in zip(vals, pres) if q):
      bad.append('%s: an entry of the result was never written' % what)
      return None
    if t == 2:
      if not all(pres) or not vals or vals[0] != 0 or vals != sorted(vals) or np != len(vals) - 1 or nc != vals[-1]:
        bad.append('%s: not an edge: split points %s for %d parents and %d children' % (what, vals, np, nc))
        return None
      return 's', np, nc, [max(g for g in range(np) if vals[g] <= i) for i in range(nc)]
    if t == 1:
      m = [v if q else None for v, q in zip(vals, pres)]
      inside = lambda x: 0 <= x < np if isinstance(x, int) else absint.rng(x, s)[0] >= 0 and absint.rng(x, s)[1] < np
      if nc != len(m) or any(x is not None and not inside(x) for x in m):
        bad.append('%s: not an edge: mapping %s for %d parents and %d children' % (what, m, np, nc))
        return None
      return 'm', np, nc, m
    bad.append('%s: edge of kind %d' % (what, t))
    return None


def denotes(e):
  if e[0] == 's':
    p = e[1]
    return len(p) - 1, p[-1], [max(g for g in range(len(p) - 1) if p[g] <= i) for i in range(p[-1])]
  return e[1], len(e[2]), [v if e[3] is None or e[3][i] == '1' else None for i, v in enumerate(e[2])]


def case(t):
  bad = []
  try:
    judge(t, bad)
  except Unsupported:
    if not bad:
      raise
  return [t[0] + ': ' + x for x in dict.fromkeys(bad)]


def judge(t, bad):
  fn, a = t[0], t[1:]
  what = ' '.join(str(x) for x in a)
  r = Run()
  it = r.it
  error = False
  kind = None
  if fn == 'x_split':
    vals, mask, off = a
    pres = mask is None or '0' not in mask
    error = not (pres and vals and vals[0] == 0 and list(vals) == sorted(vals))
    want = None if error else ('s',) + denotes(('s', vals))
    # 0, the smallest numbers below it, and numbers above it in increasing ranges
    sym = {v: K(0) if v == 0 else r.some('neg', -2 ** 40, -1) if v < 0 else r.some('g%d' % v, 1000 * v, 1000 * v + 500) for v in vals}
    args = [r.longs('s', [sym[v] for v in vals], mask, off)]
  elif fn == 'x_mapping':
    vals, mask, off, n = a
    m = [v if mask is None or mask[i] == '1' else None for i, v in enumerate(vals)]
    error = n < 0 or any(v is not None and not 0 <= v < n for v in m)
    vals = [r.some('v%d' % i, *((-2 ** 40, -1) if v < 0 else (n, 2 ** 40) if v >= n else (0, n - 1))) for i, v in enumerate(vals)]
    want = ('m', n, len(m), [None if x is None else v for x, v in zip(m, vals)])
    args = [r.longs('s', vals, mask, off), K(n)]
  elif fn == 'x_uniform':
    n, k = a
    error = n < 0 or k < 0 or n * k >= 2 ** 63
    want = None if error else ('s', n, n * k, [i // k for i in range(n * k)])
    args = [K(n), K(k), r.fac]
  elif fn in ('x_to_split', 'x_to_mapping'):
    np, nc, m = denotes(a[0])
    error = fn == 'x_to_split' and (None in m or m != sorted(m))
    want = ('s' if fn == 'x_to_split' else 'm', np, nc, m)
    args = [r.edge('s', a[0]), r.fac]
  elif fn in ('x_same', 'x_size'):
    args = [r.edge('s', a[0]), r.edge('q', a[1]) if fn == 'x_same' else K(a[1])]
    res = denotes(a[0]) == denotes(a[1]) if fn == 'x_same' else a[0][1][a[1] + 1] - a[0][1][a[1]]
  elif fn == 'x_compose':
    es = a[0]
    any_first = None
    if es:
      np, nc, m = denotes(es[0])
      if es[0][0] == 'm':
        any_first = [r.some('u%d' % i, 0, np - 1) if x is not None else K(JUNK) for i, x in enumerate(m)]
        m = [None if x is None else any_first[i] for i, x in enumerate(m)]
      for e in es[1:]:
        p2, nc2, m2 = denotes(e)
        error = error or p2 != nc
        nc = nc2
        if not error:
          m = [None if x is None else m[x] for x in m2]
      want = ('s' if all(e[0] == 's' for e in es) else 'm', np, nc, m)
    else:
      error = True
    loc = ('edges',)
    p = it.region(r.st, 'edges', len(es), 64)
    for i, e in enumerate(es):
      if i == 0 and any_first:
        e = e[:2] + (any_first,) + e[3:]
      x = r.edge('uvwx'[i], e)
      it.copy_obj(x.loc, loc + (idx(i),), r.st)
    sp = r.st.fresh('span')
    it.new_span(r.st, sp, p, K(len(es)))
    args = [Obj(sp), r.fac]
  elif fn == 'x_empty':
    want = ('m', 0, 0, [])
    args = []
  outs = it.call_fn(FN[fn], None, args, r.st)
  if not outs:
    raise facts.AnalysisBroken('%s does not return' % fn)
  for v, s in outs:
    bad.extend(r.faults(s))
    if fn not in ('x_same', 'x_split', 'x_mapping'):
      bad.extend(r.factories(s, what))
    if fn in ('x_same', 'x_size'):
      got = it.const(v, s, 'result')
      if got != res:
        bad.append('%s: %s instead of %s' % (what, got, res))
      continue
    loc = v.loc if isinstance(v, (Obj, Ref)) else None
    if fn not in ('x_to_mapping', 'x_empty'):
      v0 = it.load(v, s)
      if is_status(v0):
        if v0 == OK or not error:
          bad.append('%s: an error for a valid argument' % what)
        continue
      if error:
        bad.append('%s: no error' % what)
        continue
      if loc is None or s.heap.get(loc + ('$',)) != Const('absl::StatusOr'):
        raise Unsupported('result %r' % (v,))
      loc += ('v',)
    if fn == 'x_split':
      e = Ref(loc)
      t, np = [it.const(r.get(f, e, s), s, f) for f in ('e_type', 'e_parents')]
      nc = it.load(r.get('e_children', e, s), s)
      vp, got, vo = r.show_longs(r.get('e_values', e, s).loc, s)
      bad.extend(r.alive(vp, vo, len(got), what))
      if t != 2 or np != len(vals) - 1 or nc != sym[vals[-1]] or [K(x) if isinstance(x, int) else x for x in got] != [sym[v] for v in vals]:
        bad.append('%s: %s for %s parents and %s children' % (what, got, np, nc))
      continue
    got = r.means(Ref(loc), s, bad, what)
    if got is not None and got != want:
      bad.append('%s: the result is the edge %s instead of %s' % (what, got, want))


def masks(n):
  return [''.join(x) for x in itertools.product('01', repeat=n)]


def points(parents, children):
  return [(0,) + p for p in itertools.combinations_with_replacement(range(children + 1), parents)]


def mappings(n, parents, thorough=False):
  """Every full and partial mapping of n children."""
  out = []
  for m in itertools.product([None] + list(range(parents)), repeat=n):
    mask = ''.join('0' if x is None else '1' for x in m)
    vals = tuple(JUNK if x is None else x for x in m)
    for off in ((0, 31) if n else (0,)):
      if '0' in mask or off or thorough:
        out.append(('m', parents, vals, mask, off))
    if '0' not in mask:
      out.append(('m', parents, vals, None, 0))
  return out


NAMES = ('x_split', 'x_mapping', 'x_uniform', 'x_to_split', 'x_to_mapping', 'x_same', 'x_size', 'x_compose', 'x_empty')


def cases(thorough):
  N = 4 if thorough else 3
  yield ('x_empty',)
  for n in range(N + 1):
    for vals in itertools.product((-1, 0, 1, 2), repeat=n):
      yield ('x_split', vals, None, 0)
    for mask in masks(n):
      if n:
        yield ('x_split', (0, 1, 2, 2)[:n], mask, 0)
        yield ('x_split', (0, 1, 2, 2)[:n], mask, 31)
    for vals in itertools.product((-1, 0, 1, 2), repeat=n):
      for p in (-1, 0, 2):
        yield ('x_mapping', vals, None, 0, p)
        if n:
          for mask in masks(n):
            if n < 3 or thorough or mask in ('011', '101', '110', '111'):
              yield ('x_mapping', vals, mask, 31 if n == 2 else 0, p)
  for n, k in itertools.product((-1, 0, 1, 2, 3), (-1, 0, 1, 2)):
    yield ('x_uniform', n, k)
  for n, k in ((2 ** 62, 2), (2 ** 32, 2 ** 31), (3, 2 ** 62), (2, 2 ** 63 - 1), (2 ** 63 - 1, 2)):
    yield ('x_uniform', n, k)
  es = []
  for p in range(N + 1):
    es += [('s', x) for x in points(p, 0 if p == 0 else N)]
    for n in range(N + 1):
      if p or not n:
        es += mappings(n, p)
      else:
        es.append(('m', 0, (JUNK,) * n, '0' * n, 0))
  for e in es:
    yield ('x_to_split', e)
    yield ('x_to_mapping', e)
    if e[0] == 's':
      for i in range(len(e[1]) - 1):
        yield ('x_size', e, i)
  by = {}
  for e in es:
    by.setdefault(denotes(e)[:2], []).append(e)
  for i, a in enumerate(es):
    same = [b for b in by[denotes(a)[:2]] if denotes(b) == denotes(a)]
    others = [b for b in by[denotes(a)[:2]] if denotes(b) != denotes(a)]
    for b in same:
      yield ('x_same', a, b)
    for b in others[i % 7::7 if not thorough else 2] + es[i % 97::97]:
      yield ('x_same', a, b)
  yield ('x_compose', ())
  fs = [e for e in es if len(denotes(e)[2]) <= 3 and (e[0] == 's' or e[4] == 0)]
  for i, a in enumerate(fs):
    if i % 5 == 0:
      yield ('x_compose', (a,))
    nxt = [b for b in fs if denotes(b)[0] == denotes(a)[1]]
    for j, b in enumerate(nxt):
      if (i + j) % (3 if thorough else 29) == 0 or a[0] == b[0] == 's' and (i + j) % 3 == 0:
        yield ('x_compose', (a, b))
        third = [c for c in fs if denotes(c)[0] == denotes(b)[1]]
        for k in range((i * j) % 11, len(third), 23 if thorough else 61):
          yield ('x_compose', (a, b, third[k]))
    for b in fs[i % 61::61]:
      if denotes(b)[0] != denotes(a)[1]:
        yield ('x_compose', (a, b))
        yield ('x_compose', (a, ('s', tuple(range(denotes(a)[1] + 1))), b))
        yield ('x_compose', (('s', tuple(range(denotes(a)[0] + 1))), a, b))
  s3 = [e for e in fs if e[0] == 's']
  for i, (a, b) in enumerate((a, b) for a in s3 for b in s3 if denotes(b)[0] == denotes(a)[1]):
    if i % 4 == 0:
      for c in [c for c in s3 if denotes(c)[0] == denotes(b)[1]][i % 3::3]:
        yield ('x_compose', (a, b, c, ('m', denotes(c)[1], tuple(range(denotes(c)[1]))[::-1], None, 0)))
        yield ('x_compose', (('m', denotes(a)[0], (0,) * denotes(a)[0], None, 0), a, b, c))
        yield ('x_compose', (a, b, c))


def load():
  return facts.load(facts.Scope(inst=['arolla/dense_array/', 'arolla/memory/', 'arolla/util/', '@tu/'], extra=[os.path.join(facts.VERIF, 'tu', 'edges.cc')]))


def main(c):
  arrays.setup(load())
  parcases.check(c, case, list(cases(os.environ.get('VERIF_TIER') == 'thorough')), NAMES, FN, {f: arrays.site(f, FILES) for f in NAMES if f in FN})


if __name__ == '__main__':
  report.main('D06', RULE, main)
