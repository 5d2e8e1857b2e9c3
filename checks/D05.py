"""D05: grouped operations over dense arrays give each group exactly its own rows, in order."""
import os
import re
import sys
import zlib
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import arrays
from arrays import FN, elem
from absint import Ptr, Ref, Obj, Const, Top, Unsupported
import bitvec
from bitvec import BV, ONE, ZERO, var, subst, op2
from containers import K, idx
import D04
from D03 import elements
import facts
import parcases
import report
import statuses
from statuses import OK, is_status
import tree as T

RULE = ('Abstract interpretation of the instances of dense_array/ops/dense_group_ops.h for recording accumulators (aggregating, partial and full; with and without parent arguments, optional arguments and row ids) '
        'over symbolic values and presence bits, for an enumerated family of groupings (split points, mappings with missing entries, a single group): the accumulator of a group is reset with the row of its '
        'parent, given exactly the complete rows of the group in order, and its results go to the rows they belong to; groups and rows that are missing have no result; errors and size mismatches are returned.')
FILES = ('arolla/dense_array/ops/dense_group_ops.h',)
W = 32
ACCUMULATORS = ('witness::Plain', 'witness::Mixed', 'witness::Ided')
TERMS = ('start', 'reset', 'add', 'add_pair', 'add_id', 'finish', 'next', 'result')


def term(f, *args):
  return '%s(%s)' % (f, ','.join(str(a) for a in args))


class I(D04.I):

  def e_DfltArg(self, n, st):
    cls = n['t'].split('<')[0]
    if cls in ACCUMULATORS:
      return self.construct0({'cls': cls, 'l': n['l']}, [], st)
    return super().e_DfltArg(n, st)

  def construct0(self, n, args, st):
    if (n.get('cls') or '') in ACCUMULATORS:
      if n.get('copy') or n.get('move'):
        return [(args[0], st)]
      loc = st.fresh('acc')
      st.heap[loc + ('state',)] = elem('start()', 0)
      st.heap[loc + ('status',)] = OK
      return [(Obj(loc, n), st)]
    return super().construct0(n, args, st)

  def name_of(self, v, st):
    """What a word is: an element of an array, a term or a number."""
    v = self.load(v, st)
    if isinstance(v, bool):
      return str(int(v))
    w = self.bv(v, W)
    if w is None:
      raise Unsupported('argument of an accumulator')
    a = self.asg(st)
    bs = [subst(b, a) for b in w.b]
    if all(not b.vs for b in bs):
      return str(sum((b.tt & 1) << i for i, b in enumerate(bs)))
    b = bs[0]
    if len(b.vs) == 1 and b == var(b.vs[0]) and all(x == ZERO for x in bs[1:]):
      return '%s%d' % b.vs[0]
    if len(b.vs) != 1 or b != var(b.vs[0]) or [x.vs for x in bs] != [((b.vs[0][0], b.vs[0][1] + i),) for i in range(W)]:
      return '?'
    nm, i = b.vs[0]
    return nm if nm.endswith(')') else '%s%d' % (nm, i // W)

  def model(self, name, n, obj, args, st):
    if name.startswith('witness::'):
      sh = T.short(name)
      if sh in TERMS:
        t = term(sh, *[self.name_of(a, st) for a in args])
        self.event(st, 'term', t)
        return [(elem(t, 0), st)]
      if sh == 'check':
        r = self.name_of(args[0], st)
        return [(statuses.error(r) if r in self.FAIL else OK, st)]
      if sh == 'worse':
        a, b = self.load(args[0], st), self.load(args[1], st)
        if not is_status(a) or not is_status(b):
          raise Unsupported('status of an accumulator')
        return [(b if a == OK else a, st)]
    if name.startswith('std::_Bit_reference::'):
      at = obj.loc if isinstance(obj, Obj) else self.target(obj, st)
      if T.short(name) == 'operator=':
        v = self.load(args[0], st)
        if isinstance(v, Top):
          raise Unsupported('element of a vector of bool')
        st.heap[at] = v
        return [(Ref(at), st)]
      if T.short(name) == 'operator bool':
        return [(self.load(Ref(at), st), st)]
    return super().model(name, n, obj, args, st)


class Run(D04.Run):
  INTERP = I

  def longs(self, name, vals, off, pattern):
    """An array of 64-bit numbers; missing rows hold junk."""
    n = len(vals)
    p = self.it.region(self.st, name, n, 64) if n else Ptr(None)
    for i, v in enumerate(vals):
      self.st.heap[(name, idx(i))] = K(v)
    (sp, self.st), = self.it.call_fn(FN['l_span'], None, [p, K(n)], self.st)
    v = self.make('l_make', [Const(('owner', name)) if n else Ptr(None), sp], name + '$buf')
    m = self.buffer(name + 'm', (n + off + W - 1) // W if pattern is not None else 0, True, 'm')
    if isinstance(pattern, tuple):
      for w in range((n + off + W - 1) // W):
        self.st.heap[(name + 'm', idx(w))] = BV([self.presence(name, w * W + i - off, n, off, pattern) for i in range(W)])
    return self.make('l_array', [v, m, K(off)], name + '$arr')


def case(t):
  bad = []
  try:
    judge(t, bad)
  except Unsupported:
    if not bad:
      raise
  return [t[0] + ': ' + x for x in dict.fromkeys(bad)]


JUNK = 10 ** 6


def judge(t, bad):
  """(fn, edge, parents, children, failing rows); edge: ('split', points) | ('map', size, mapping, off, pattern) | ('one', n)"""
  fn, edge, parents, children, fail = t
  what = ' '.join(str(x) for x in t[1:] if x != ())
  r = Run()
  it = r.it
  it.FAIL = tuple('c%d' % i for i in fail)
  cn = 'cd'[:len(children)]
  cs = [r.rows(nm, *a) for nm, a in zip(cn, children)]
  full = lambda x: [x]
  if edge[0] == 'one':
    size, n = 1, edge[1]
    e = r.make('e_scalar', [K(n)], 'edge$')
    group = lambda i: 0
  elif edge[0] == 'split':
    pts = edge[1]
    size, n = len(pts) - 1, pts[-1]
    e = r.make('e_split', [r.longs('s', pts, 0, None)], 'edge$')
    group = lambda i: max(g for g in range(size) if pts[g] <= i)
  else:
    size, mp, off, pat = edge[1:]
    n = len(mp)
    e = r.make('e_mapping', [r.longs('s', [JUNK if pat is not None and pat != 'all' and not pat[0] and i not in pat[1] else x for i, x in enumerate(mp)], off, pat), K(size)], 'edge$')
    group = lambda i: mp[i]
  mixed = fn.endswith('_mixed')
  kind = fn.split('_')[1]
  if fn == 'h_agg_mixed':
    p0 = elem('p', 0)
    ps = [p0]
  else:
    ps = [r.rows('p', *a) for a in parents]
  matching = all(a[0] == n for a in children) and all(a[0] == size for a in parents)
  outs = it.call_fn(FN[fn], None, [e] + ps + cs + [r.fac], r.st)
  for v, s in outs:
    bad.extend(r.faults(s))
    bad.extend(r.factories(s, what))
    asg = it.asg(s)
    v0 = it.load(v, s)
    if not matching:
      if not is_status(v0) or v0 == OK:
        bad.append('%s: no error for arrays of other sizes' % what)
      continue

    def holds(b, who):
      b = subst(b, asg)
      if b == ONE or it.never(op2('^', b, ONE), s):
        return True
      if b == ZERO or it.never(b, s):
        return False
      bad.append('%s: the result does not depend on the presence of %s' % (what, who))
      return None
    valid = []
    for g in range(size):
      b = ONE
      for a in parents:
        b = op2('&', b, r.presence('p', g, *a))
      valid.append(holds(b, 'group %d' % g))
    rows = [[] for _ in range(size)]
    for i in range(n):
      g = group(i)
      if not valid[g]:
        continue
      b = r.presence('c', i, *children[0])
      if edge[0] == 'map':
        b = op2('&', b, r.presence('s', i, n, edge[3], edge[4]))
      if holds(b, 'row %d' % i):
        rows[g].append(i)
    if bad:
      return
    want, res = {}, {}
    state = {}
    for g in range(size):
      if not valid[g]:
        continue
      # terms of a group up to the state it was reset from
      st = term('reset', '*', 'p%d' % g if mixed else '0')
      for i in rows[g]:
        if mixed:
          q = subst(r.presence('d', i, *children[1]), asg)
          st = ('pair', st, i, q)
        elif fn == 'g_agg_id':
          st = ('id', st, i)
        else:
          st = ('add', st, i)
        if kind == 'partial':
          res[i] = ('result', st)
          st = ('next', st)
      if kind == 'full':
        st = ('finish', st)
        for i in rows[g]:
          res[i] = ('result', st)
          st = ('next', st)
      if kind == 'agg':
        res[g] = ('result', st)
    err = [i for g in range(size) for i in rows[g] if i in fail]
    if err:
      if not is_status(v0) or v0 == OK:
        bad.append('%s: the error of row %d is lost' % (what, err[0]))
      elif v0.v[1] not in it.FAIL:
        bad.append('%s: error %r nobody returned' % (what, v0.v[1]))
      continue
    if is_status(v0):
      bad.append('%s: error %r nobody returned' % (what, v0.v[1]))
      continue
    loc = v.loc if isinstance(v, Obj) else it.target(v, s)
    if s.heap.get(loc + ('$',)) != Const('absl::StatusOr'):
      raise Unsupported('result %r' % (v,))
    if fn in ('h_agg', 'h_agg_mixed'):
      got = {0: (it.bv(it.load(Ref(loc + ('v', 'value')), s), W), r.bit(it.load(Ref(loc + ('v', 'present')), s), s))}
      count = 1
    else:
      gv, gp, vo, mo = elements(r, Ref(loc + ('v',)), s, bad, what, True)
      count = size if kind == 'agg' else n
      if len(gv) != count:
        bad.append('%s: %d rows instead of %d' % (what, len(gv), count))
        continue
      got = {i: (gv[i], gp[i]) for i in range(count)}
    for i in range(count):
      gval, gpres = got[i]
      wp = ONE if i in res else ZERO
      if gpres is None or subst(gpres, asg) != wp:
        bad.append('%s: presence of row %d is %r instead of %r' % (what, i, gpres, wp))
      elif i in res:
        nm = it.name_of(gval, s) if gval is not None else None
        if nm is None or not match(nm, res[i], asg):
          bad.append('%s: the result of row %d is %s instead of %s' % (what, i, short(nm), show(res[i])))


def short(nm):
  return re.sub(r'reset\(.*?,(p?\d+)\)', r'reset(\1)', nm or 'nothing')[:90]


def show(t):
  if isinstance(t, str):
    return t.replace('*,', '')
  return '%s(%s)' % (t[0], ','.join([show(t[1])] + [str(x) for x in t[2:3]]))


def args_of(nm):
  """f(a,b,c) -> f, [a, b, c]"""
  if not nm.endswith(')'):
    return nm, []
  f, body = nm[:nm.index('(')], nm[nm.index('(') + 1:-1]
  out, d, cur = [], 0, ''
  for ch in body:
    if ch == ',' and d == 0:
      out.append(cur)
      cur = ''
      continue
    d += (ch == '(') - (ch == ')')
    cur += ch
  return f, out + [cur]


def match(nm, t, asg):
  f, a = args_of(nm)
  if isinstance(t, str):                       # reset(*,p): from whatever state the accumulator had
    return f == 'reset' and a[1] == args_of(t)[1][1]
  if t[0] in ('result', 'next', 'finish'):
    return f == t[0] and match(a[0], t[1], asg)
  if t[0] == 'add':
    return f == 'add' and a[1] == 'c%d' % t[2] and match(a[0], t[1], asg)
  if t[0] == 'id':
    return f == 'add_id' and a[1] == str(t[2]) and a[2] == 'c%d' % t[2] and match(a[0], t[1], asg)
  if t[0] == 'pair':
    q = t[3]
    if f != 'add_pair' or a[1] != 'c%d' % t[2] or not match(a[0], t[1], asg):
      return False
    if not q.vs:
      return a[2] == str(q.tt & 1) and (q == ZERO or a[3] == 'd%d' % t[2])
    return a[2] == '%s%d' % q.vs[0] and a[3] == 'd%d' % t[2]
  return False


NAMES = ('g_agg', 'g_partial', 'g_full', 'g_agg_mixed', 'g_partial_mixed', 'g_full_mixed', 'g_agg_id', 'h_agg', 'h_partial', 'h_full', 'h_agg_mixed')


def cases(thorough):
  splits = [(0,), (0, 0), (0, 1), (0, 3), (0, 2, 3), (0, 0, 2, 2, 3), (0, 3, 3), (0, 31, 33), (0, 32, 64), (0, 33, 33, 65), (0, 1, 32, 34)]
  maps = [(0, ()), (1, ()), (2, (1,)), (2, (0, 1, 0)), (3, (2, 2, 0)), (2, (1, 1, 1)), (3, (2, 0, 2, 1)), (2, tuple(i * 7 % 3 % 2 for i in range(34))), (40, (39, 0, 32, 31))]
  if thorough:
    splits += [(0, 0, 0), (0, 1, 2, 3), (0, 4), (0, 2, 4, 4), (0, 64, 65), (0, 31, 32, 33, 63, 64)]
    maps += [(1, (0, 0, 0, 0)), (4, (3, 2, 1, 0)), (3, (1, 2, 0, 1, 2)), (33, tuple(range(33))), (2, tuple(i % 2 for i in range(65)))]
  for fn in NAMES:
    mixed = fn.endswith('_mixed')
    if fn[0] == 'h':
      edges = [('one', n) for n in (0, 1, 2, 3, 31, 32, 33, 65)]
    else:
      edges = [('split', p) for p in splits]
      for size, mp in maps:
        n = len(mp)
        edges.append(('map', size, mp, 0, None))
        for off in (0, 1, 31):
          if n <= 4:
            edges.append(('map', size, mp, off, 'all' if n <= 2 else (1, (1,))))
          edges.append(('map', size, mp, off, (0, tuple(range(0, n, 2)) if n <= 4 else (0, 31))))
    for k, e in enumerate(edges):
      n = e[1] if e[0] == 'one' else e[1][-1] if e[0] == 'split' else len(e[2])
      size = 1 if e[0] == 'one' else len(e[1]) - 1 if e[0] == 'split' else e[1]
      pats = [None, (1, (0,)), (0, (n - 1,))] + (['all'] if n <= 3 else [(1, (31,)), (0, (0, 32))])
      ppats = [None, (1, (0,)), (0, (size - 1,))] + (['all'] if size <= 2 else [])
      for j, c in enumerate(pats):
        for o in (0, 31) if c is not None else (0,):
          fails = [(), (0,), (n - 1,)] if n and j != 3 else [()]
          for f in fails:
            if not mixed:
              yield (fn, e, (), ((n, o, c),), f)
              continue
            for q, p in enumerate(ppats if fn[0] == 'g' else [None]):
              if (j + k + q + len(f)) % 2 and not thorough:
                continue
              d = [None, 'all', (1, (0,)), 'all'][(j + k + q) % 4]
              ps = ((size, 1 if p is not None else 0, p),) if fn[0] == 'g' else ()
              yield (fn, e, ps, ((n, o, c), (n, 0 if d is None else 31, d)), f)
    for m in (2, 4):
      e = ('one', 3) if fn[0] == 'h' else ('split', (0, 1, 3))
      two = lambda a, b: ((a, 0, None), (b, 0, None)) if mixed else ((a, 0, None),)
      ps = ((2, 0, None),) if mixed and fn[0] == 'g' else ()
      yield (fn, e, ps, two(m, 3), ())
      if mixed:
        yield (fn, e, ps, two(3, m), ())
        if ps:
          yield (fn, e, ((m - 1, 0, None),), two(3, 3), ())
          yield (fn, ('map', 2, (0, 1, 1), 0, None), ((m - 1, 0, None),), two(3, 3), ())
      if fn[0] == 'g':
        yield (fn, ('map', 2, (0, 1, 1), 0, None), ps, two(m, 3), ())


def chosen(thorough):
  """The quick tier runs a fixed sample; the thorough one everything."""
  for t in cases(thorough):
    rows = t[1][1] if t[1][0] == 'one' else t[1][1][-1] if t[1][0] == 'split' else len(t[1][2])
    if thorough or not rows or zlib.crc32(repr(t).encode()) % ((1 if t[0][0] == 'h' else 4 + 2 * len(t[2])) * (1 if rows < 5 else 3)) == 0:
      yield t


def load():
  return facts.load(facts.Scope(inst=['arolla/dense_array/', 'arolla/memory/', 'arolla/util/', '@tu/'], extra=[os.path.join(facts.VERIF, 'tu', 'groups.cc')]))


def main(c):
  arrays.setup(load())
  parcases.check(c, case, list(chosen(os.environ.get('VERIF_TIER') == 'thorough')), NAMES, FN, {f: arrays.site(f, FILES) for f in NAMES if f in FN})


if __name__ == '__main__':
  report.main('D05', RULE, main)
