"""D04: pointwise operations over dense arrays act row by row."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import arrays
from arrays import FN, elem
from absint import Aff, Ptr, Ref, Obj, Const, Top, Unsupported
import bitvec
from bitvec import BV, ONE, ZERO, var, subst
from containers import K, idx
from D03 import elements, presence
import facts
import parcases
import report
import statuses
from statuses import OK, is_status
import tree as T

RULE = ('Abstract interpretation of the instances of dense_array/ops/dense_ops.h, universal_dense_op.h and util.h (one per implementation that the library chooses between, for opaque row functions) over '
        'symbolic values and presence bits, for an enumerated family of sizes, bit offsets and presence patterns around the word boundaries: row i of the result is the function of row i of the arguments, '
        'present exactly when the required arguments (and the result of the function) are; the function is not called on missing rows unless allowed; errors and size mismatches are returned; callbacks '
        'see every row of the range once and in order; memory comes from the given factory, nothing outside the arguments is touched.')
FILES = ('arolla/dense_array/ops/',)
W = 32


class I(statuses.Statuses, arrays.Interp):
  FAIL = ()
  SOME = ()

  def unknown(self, n, obj, args, st):
    r = self.implicit(n, obj, args, st)
    if r is not None:
      return r
    raise Unsupported('call of %s at line %s' % (T.callee_name(n) or n.get('cls'), n.get('l')))

  def implicit(self, n, obj, args, st):
    """The implicit assignment of a class of the repository."""
    if n.get('op') == '=' and isinstance(obj, (Ref, Obj)) and self.F.records.get(n.get('cls') or ''):
      return super().unknown(n, obj, args, st)
    return None

  def construct0(self, n, args, st):
    cls = n.get('cls') or ''
    if cls in ('absl::StatusOr', 'absl::StatusBuilder', 'absl::status_macro_shim::Adaptor', 'absl::Status'):
      r = self.status_model(cls + '::' + T.short(cls), n, None, args, st)
      if r is not None:
        return r
    if (n.get('cls') or '') == 'std::tuple':
      if n.get('copy') or n.get('move'):
        return [(args[0], st)]
      loc = st.fresh('tuple')
      st.heap[loc + ('$tuple',)] = Const(len(args))
      for i, a in enumerate(args):
        at = a.loc if isinstance(a, Obj) else self.target(a, st) if isinstance(a, Ref) else None
        if at is not None and any(k[:len(at)] == at and k != at for k in st.heap if isinstance(k, tuple)):
          self.copy_obj(at, loc + ('#%d' % i,), st)
        else:
          st.heap[loc + ('#%d' % i,)] = self.load(a, st)
      return [(Obj(loc, n), st)]
    return super().construct0(n, args, st)

  def row(self, v, st):
    """The row a value comes from."""
    v = self.bv(self.load(v, st), W)
    if v is None:
      raise Unsupported('value of a row')
    b = v.b[0]
    return b.vs[0] if len(b.vs) == 1 else None

  def both(self, lits, pos, st):
    """Literals over several bits are followed by their only solution, or split."""
    a = self.asg(st)
    out = []
    for b, v in [(subst(b, a), v) for b, v in lits]:
      if len(b.vs) > 1:
        sol = [m for m in range(1 << len(b.vs)) if (b.tt >> m & 1) == v]
        if len(sol) != 1:
          return [z for x in (0, 1) for s in [self.assume_all([(var(b.vs[0]), x)], st)] if s is not None for z in self.both(lits, pos, s)]
        out += [(var(x), sol[0] >> i & 1) for i, x in enumerate(b.vs)]
      else:
        out.append((b, v))
    return super().both(out, pos, st)

  def never(self, bit, st):
    """The bit cannot be set here."""
    return not any(p for p, _ in self.both([(bit, 1)], True, st.clone()))

  def model(self, name, n, obj, args, st):
    if name == 'arolla::SizeMismatchError':
      return [(statuses.error('sizes'), st)]
    if name == 'std::get':
      at = args[0].loc if isinstance(args[0], Obj) else self.target(args[0], st)
      k = str((n.get('ta') or [''])[0]).rstrip('UL')
      if at + ('$tuple',) not in st.heap or at + ('#' + k, '$') not in st.heap and at + ('#' + k,) not in st.heap:
        raise Unsupported('std::get')
      return [(Ref(at + ('#%s' % k,)), st)]
    if name in ('witness::f1', 'witness::f2', 'witness::f3', 'witness::p1', 'witness::p2', 'witness::s1', 'witness::s2'):
      rows = tuple(self.row(a, st) for a in args)
      sh = T.short(name)
      self.event(st, 'applied', sh, rows)
      if sh[0] == 'f':
        return [(elem(sh + repr(rows), 0), st)]
      i = rows[0][1] // W if rows[0] else None
      if sh[0] == 'p':
        return [(BV([var(('p', repr(rows)))]) if i in self.SOME else True, st)]
      return [(statuses.error(rows) if i in self.FAIL else OK, st)]
    return super().model(name, n, obj, args, st)


class Run(arrays.Run):
  INTERP = I

  def rows(self, name, n, off, pattern):
    """pattern: None (no bitmap), 'all' (symbolic presence) or (constant, symbolic rows)"""
    a = self.array(name, n, off, pattern is not None)
    if isinstance(pattern, tuple):
      for w in range((n + off + W - 1) // W):
        self.st.heap[(name + 'm', idx(w))] = BV([self.presence(name, w * W + i - off, n, off, pattern) for i in range(W)])
    return a

  def presence(self, name, i, n, off, pattern):
    if pattern is None:
      return ONE
    if isinstance(pattern, tuple) and 0 <= i < n and i not in pattern[1]:
      return ONE if pattern[0] else ZERO
    return var((name + 'm', off + i))


def case(t):
  bad = []
  try:
    judge(t, bad)
  except Unsupported:
    if not bad:
      raise
  return [t[0] + ': ' + x for x in dict.fromkeys(bad)]


def first(name, i):
  return elem(name, i).b[0].vs[0]


NARGS = {'x_unary': 1, 'x_unary_skip': 1, 'x_partial': 1, 'x_partial_all': 1, 'x_status': 1, 'x_ternary': 3, 'x_ternary_aligned': 3}


def judge(t, bad):
  fn, arrs, extra = t
  what = ' '.join(str(x) for x in t[1:] if x != ())
  r = Run()
  it = r.it
  it.FAIL, it.SOME = extra if fn in ('x_status', 'x_status_all', 'x_partial', 'x_partial_all') else ((), ())
  names = 'uvw'[:len(arrs)]
  args = [r.rows(nm, *a) for nm, a in zip(names, arrs)]
  n = arrs[0][0]

  def pres(k, i, asg):
    return subst(r.presence(names[k], i, arrs[k][0], arrs[k][1], arrs[k][2]), asg)

  def conj(bits):
    out = ONE
    for b in bits:
      out = bitvec.op2('&', out, b)
    return out
  if fn in ('x_each', 'x_each_optional', 'x_each_present', 'x_range', 'x_range_aligned'):
    lo, hi = extra if fn.startswith('x_range') else (0, n)
    outs = r.call(fn, *([lo, hi] if fn.startswith('x_range') else []), *args)
    for v, s in outs:
      bad.extend(r.faults(s))
      asg = it.asg(s)
      seen = [e[1:] for e in s.log if e[0] == 'seen']
      if not fn.startswith('x_range'):
        v = it.load(v, s)
        if not is_status(v):
          raise Unsupported('status %r' % (v,))
        if (v == OK) != all(a[0] == n for a in arrs):
          bad.append('%s: %s for arrays of %s rows' % (what, v.v[1], [a[0] for a in arrs]))
        if any(a[0] != n for a in arrs):
          if seen:
            bad.append('%s: rows seen of arrays that do not match' % what)
          continue
      need = {'x_each': (0, 1), 'x_each_present': (0, 1), 'x_each_optional': (0,), 'x_range': (0,), 'x_range_aligned': (1,)}[fn]
      want = list(range(lo, hi))
      if fn == 'x_each_present':
        vs = [conj([pres(k, i, asg) for k in need]) for i in want]
        if any(b != ONE and not it.never(b, s) for b in vs):
          bad.append('%s: rows seen or skipped whatever their presence' % what)
          continue
        want = [i for i, b in zip(want, vs) if b == ONE]
      ids = [r.num(e[0], s).const() for e in seen]
      if ids != want:
        bad.append('%s: the rows seen are %s instead of %s' % (what, ids[:8], want[:8]))
        continue
      for i, (_, valid, pa, a, pb, b) in zip(want, seen):
        ok = conj([pres(k, i, asg) for k in need])
        if r.bit(valid, s) != ok:
          bad.append('%s: row %d is marked %r instead of %r' % (what, i, r.bit(valid, s), ok))
        for k, (p, x) in enumerate(((pa, a), (pb, b))):
          if k not in need and r.bit(p, s) != pres(k, i, asg):
            bad.append('%s: presence of optional argument %d of row %d' % (what, k, i))
          if pres(k, i, asg) != ZERO:
            bad.extend(r.same([it.bv(it.load(x, s), W)], [elem(names[k], i)], s, '%s: argument %d of row %d' % (what, k, i)))
    return

  for v, s in r.call(fn, *args, r.fac):
    bad.extend(r.faults(s))
    bad.extend(r.factories(s, what))
    asg = it.asg(s)
    v0 = it.load(v, s)
    applied = [e[1:] for e in s.log if e[0] == 'applied']
    if any(a[0] != n for a in arrs):
      if not is_status(v0) or v0 == OK:
        bad.append('%s: no error for arrays of %s rows' % (what, [a[0] for a in arrs]))
      if applied:
        bad.append('%s: rows computed of arrays that do not match' % what)
      continue
    required = {'x_first': (), 'x_mixed': (1,)}.get(fn, tuple(range(len(arrs))))
    skip = fn in ('x_unary_skip', 'x_binary_skip', 'x_binary_skip_aligned', 'x_partial', 'x_status', 'x_status_all', 'x_mixed')
    called = {}
    for f, rows in applied:
      if any(x is None for x in rows):
        bad.append('%s: the function is applied to something that is no element' % what)
        continue
      i = rows[-1][1] // W
      called.setdefault(i, []).append((f, rows))
      if any(x != first(nm, i) for x, nm in zip(rows, names[1:] if fn == 'x_mixed' and f == 'f1' else names)):
        bad.append('%s: the function is applied to %s' % (what, rows))
    if skip:
      for i in called:
        b = conj([pres(k, i, asg) for k in required])
        if b != ONE and not it.never(bitvec.op2('^', b, ONE), s):
          bad.append('%s: the function is applied to row %d, which is missing or may be' % (what, i))
    if fn in ('x_status', 'x_status_all'):
      fails = [(i, conj([pres(k, i, asg) for k in required])) for i in it.FAIL if i < n]
      err = next((i for i, b in sorted(fails) if b == ONE), None)
      if any(b != ONE and not it.never(b, s) for i, b in fails if err is None or i < err):
        bad.append('%s: the result does not depend on whether a failing row is present' % what)
        continue
      if err is not None:
        if not is_status(v0) or v0 == OK:
          bad.append('%s: the error of row %d is lost' % (what, err))
        elif v0.v[1] != tuple(first(nm, err) for nm in names):
          bad.append('%s: %r instead of the error of row %d' % (what, v0.v[1], err))
        continue
    if is_status(v0):
      bad.append('%s: an error %r nobody returned' % (what, v0.v[1]))
      continue
    o = v
    if fn not in ('x_unary', 'x_unary_skip', 'x_binary_skip_aligned', 'x_partial', 'x_partial_all'):
      loc = v.loc if isinstance(v, Obj) else it.target(v, s)
      if s.heap.get(loc + ('$',)) != Const('absl::StatusOr'):
        raise Unsupported('result %r' % (v,))
      o = Ref(loc + ('v',))
    gv, gp, vo, mo = elements(r, o, s, bad, what, True)
    if len(gv) != n:
      bad.append('%s: %d rows instead of %d' % (what, len(gv), n))
      continue
    for i in range(n):
      rows = tuple(first(nm, i) for nm in names)
      ps = [pres(k, i, asg) for k in range(len(arrs))]
      p = conj([ps[k] for k in required])
      w = elem('f%d' % len(arrs) + repr(rows), 0)
      if fn in ('x_partial', 'x_partial_all', 'x_status_all') and i in it.SOME:
        p = conj([p, subst(var(('p', repr(rows))), asg)])
      if fn == 'x_first':
        p = bitvec.op2('|', ps[0], ps[1])
        w = it.bv(it.ite(ps[0], elem('u', i), elem('v', i)), W)
      elif fn == 'x_mixed':
        w = it.bv(it.ite(ps[0], w, elem('f1' + repr(rows[1:]), 0)), W)
      if gp[i] is None or bitvec.op2('^', subst(gp[i], asg), p) != ZERO and not it.never(bitvec.op2('^', subst(gp[i], asg), p), s):
        bad.append('%s: presence of row %d is %r instead of %r' % (what, i, gp[i] and subst(gp[i], asg), p))
      if p != ZERO and not it.never(p, s):
        if gv[i] is None or any(bitvec.op2('&', p, bitvec.op2('^', subst(x, asg), subst(y, asg))) != ZERO for x, y in zip(gv[i].b[:2] + gv[i].b[-1:], w.b[:2] + w.b[-1:])):
          bad.append('%s: row %d is not the value of the function' % (what, i))
    for k, a in enumerate(args):
      sv, sp, _, _ = elements(r, a, s, bad, what + ': argument %d' % k, False)
      bad.extend(r.same(sv, [elem(names[k], i) for i in range(n)], s, what + ': argument %d' % k))
      bad.extend(presence(r, s, sp, [pres(k, i, asg) for i in range(n)], what + ': argument %d' % k))


NAMES = ('x_unary', 'x_unary_skip', 'x_binary', 'x_binary_aligned', 'x_binary_skip', 'x_binary_skip_aligned', 'x_ternary', 'x_ternary_aligned', 'x_partial', 'x_partial_all', 'x_status', 'x_status_all',
         'x_first', 'x_mixed', 'x_each', 'x_each_optional', 'x_each_present', 'x_range', 'x_range_aligned')
ALIGNED = ('x_binary_aligned', 'x_binary_skip_aligned', 'x_ternary_aligned', 'x_range_aligned')
FREE = ('x_unary', 'x_binary', 'x_binary_aligned', 'x_ternary_aligned', 'x_each', 'x_each_optional', 'x_range', 'x_range_aligned')


def patterns(fn, n):
  """No bitmap, any presence, and mostly present or missing rows around the word boundaries."""
  yield None
  if n <= 2 or fn in FREE:
    yield 'all'
  if fn not in FREE and n:
    some = tuple(sorted({0, n - 1}))
    yield (1, some)
    yield (0, some)
    if n > 32:
      yield (1, (31, 32))
    if n > 33:
      yield (0, (33,))


def cases(thorough):
  for fn in NAMES:
    k = NARGS.get(fn, 2)
    sizes = (0, 1, 2, 31, 32, 33, 65) if not thorough else (0, 1, 2, 3, 4, 30, 31, 32, 33, 34, 63, 64, 65, 70, 96, 97)
    offs = (0,) if fn in ALIGNED else (0, 1, 31) if not thorough else (0, 1, 2, 15, 30, 31)
    for n in sizes:
      if fn == 'x_first' and n > 33 and not thorough:
        continue
      one = [(n, o, p) for p in patterns(fn, n) for o in (offs if p is not None else (0,))]
      extras = [()]
      if fn in ('x_partial', 'x_partial_all', 'x_status', 'x_status_all'):
        fails = [(), (0,), (n - 1,), (0, n - 1)] if fn.startswith('x_status') and n else [()]
        somes = [(), (0,), (n - 1,)] if fn != 'x_status' and n else [()]
        extras = [(f, s) for f in fails for s in somes]
      if fn.startswith('x_range'):
        pts = sorted({0, 1, 31, 32, 33, n - 1, n} & set(range(n + 1)))
        extras = [(a, b) for a in pts for b in pts if a <= b]
      for x in extras:
        if k == 1:
          for a in one:
            yield (fn, (a,), x)
        else:
          for i, a in enumerate(one):
            for j, b in enumerate(one):
              if fn == 'x_status_all' and not thorough and (i + j + len(x[0]) + len(x[1])) % 3:
                continue
              if fn not in FREE and not thorough and n > 2 and (i + 2 * j + n + len(x[0] if x else ()) + len(x[1] if x else ())) % {'x_status_all': 4, 'x_first': 11}.get(fn, 5):
                continue
              if k == 2:
                yield (fn, (a, b), x)
              elif k == 3 and (i + j) % 2 == 0:
                yield (fn, (a, b, one[(i + j) // 2 % len(one)]), x)
                yield (fn, (one[-1 - i], a, b), x)
    if k > 1 and fn not in ('x_binary_skip_aligned', 'x_range', 'x_range_aligned'):
      for n, m in ((0, 1), (1, 0), (1, 2), (2, 1), (33, 32), (32, 33)):
        for p in (None, (1, ())):
          yield (fn, ((n, 0, p), (m, 0, None)) + (((n, 0, None),) if k == 3 else ()), ((), ()))
          if k == 3:
            yield (fn, ((n, 0, p), (n, 0, None), (m, 0, p)), ((), ()))


def load():
  return facts.load(facts.Scope(inst=['arolla/dense_array/', 'arolla/memory/', 'arolla/util/', '@tu/'], extra=[os.path.join(facts.VERIF, 'tu', 'pointwise.cc')]))


def main(c):
  arrays.setup(load())
  parcases.check(c, case, list(cases(os.environ.get('VERIF_TIER') == 'thorough')), NAMES, FN, {f: arrays.site(f, FILES) for f in NAMES if f in FN})


if __name__ == '__main__':
  report.main('D04', RULE, main)
