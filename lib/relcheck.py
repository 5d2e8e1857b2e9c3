"""Compares impl_* with ref_* witness functions by value numbering."""
import os
import re

import absint
import facts
import tree as T
import vn
from absint import Aff, Obj, Ref

CLASSES_S = {32: None, 64: None}


def int_classes(t):
  lo, hi = absint.int_range(t)
  if lo < 0:
    return [(lo, lo), (lo + 1, -2), (-1, -1), (0, 0), (1, 1), (2, hi)]
  if hi == 1:
    return [(0, 0), (1, 1)]
  return [(0, 0), (1, 1), (2, hi)]


def params(fn, split=True):
  """Abstract arguments: one partition class per combination."""
  combos = [([], {})]
  for p in fn['p']:
    t = p.get('ct') or p['t']
    nm = p['n']
    nxt = []
    if vn.ftype(t):
      vn.VN.widths[nm] = vn.ftype(t)
      for vs, iv in combos:
        nxt.append((vs + [vn.Term('var', nm)], iv))
    elif absint.int_range(t):
      for vs, iv in combos:
        for lo, hi in (int_classes(t) if split else [absint.int_range(t)]):
          nxt.append((vs + [Aff({nm: 1}) if lo != hi else Aff((), lo)], dict(iv, **({nm: (lo, hi)} if lo != hi else {}))))
    elif t.rstrip('& ').endswith(('Unit', 'monostate')) and 'Optional' not in t:
      for vs, iv in combos:
        nxt.append((vs + [Ref(('arg', nm))], iv))
    elif 'Optional' in t or 'OB' in t or 'OF' in t or 'OI' in t or 'OU' in t:
      for vs, iv in combos:
        nxt.append((vs + [Ref(('arg', nm))], iv))
    else:
      raise absint.Unsupported('parameter type ' + t)
    combos = nxt
  return combos


VALUE_T = 'float'


def materialise(loc, t, it, states):
  """The fields of an optional argument: absent or present with any value."""
  m = re.search(r'OptionalValue<(.*)>', t)
  if not m:
    return states
  out = []
  for st in states:
    for p in (0, 1):
      s = st.clone()
      s.heap[loc + ('present',)] = Aff((), p)
      if not m.group(1).endswith(('Unit', 'monostate')):
        s.heap[loc + ('value',)] = it.load_missing(loc + ('value',), m.group(1), s)
      out.append(s)
  return out


def simp(t, st, it):
  """Rewrites by the facts of the state (numeric equality: the sign of zero and NaN payloads are not distinguished)."""
  if not isinstance(t, vn.Term) or t.op in ('lit', 'var'):
    return t
  a = tuple(simp(x, st, it) for x in t.a)
  t = vn.Term(t.op, *a)
  if t.op == 'fabs' and isinstance(a[0], vn.Term):
    lo, hi, nan = it.finterval(a[0], st)
    if not nan and lo >= 0:
      return a[0]
    if not nan and hi <= 0:
      return simp(it.neg(a[0]), st, it)
  if t.op == 'neg':
    return it.neg(a[0])
  if t.op == 'add':
    if a[0] == vn.lit(0):
      return a[1]
    if a[1] == vn.lit(0):
      return a[0]
  if t.op in ('add', 'mul', 'div'):
    return it.fop(t.op, *a)
  return t


def equal(g, w, st, it, mod):
  """Whether two abstract results agree in the state `st`; forks on undecided presence."""
  if isinstance(g, tuple) and isinstance(w, tuple) and g and w and g[0] == w[0] == 'opt':
    for pg, s in it.truth(g[1], st.clone()):
      for pw, s2 in it.truth(w[1], s):
        if pg != pw or pg and g[2] is not None and w[2] is not None and not equal(g[2], w[2], s2, it, mod):
          return False
    return True
  if isinstance(g, tuple) and isinstance(w, tuple):
    return len(g) == len(w) and all(a[0] == b[0] and equal(a[1], b[1], st, it, mod) for a, b in zip(g, w))
  if isinstance(g, bool):
    g = Aff((), int(g))
  if isinstance(w, bool):
    w = Aff((), int(w))
  if isinstance(w, Aff) and isinstance(g, Aff):
    if absint.rng(g.add(w, -1), st) == (0, 0):
      return True
  if vn.same(g, w, mod):
    return True
  if isinstance(g, vn.Term) and isinstance(w, vn.Term):
    r = st.heap.get(('rel', g, w)) or st.heap.get(('rel', w, g))
    if r == '=':
      return True
    if it.isnan_known(g, st) is True and it.isnan_known(w, st) is True:
      return True
    return vn.same(simp(g, st, it), simp(w, st, it), mod)
  return False


def result(v, s, it):
  v = it.load(v, s)
  if isinstance(v, Obj):
    pres = s.heap.get(v.loc + ('present',))
    if pres is None and v.loc[0] == 'arg':
      pres = it.load_missing(v.loc + ('present',), 'bool', s)
    if pres is not None:
      val = s.heap.get(v.loc + ('value',))
      if val is None and v.loc[0] == 'arg':
        val = it.load_missing(v.loc + ('value',), VALUE_T, s)
      return ('opt', pres, val)
    fields = sorted((k[len(v.loc):], x) for k, x in s.heap.items() if isinstance(k, tuple) and k[:len(v.loc)] == v.loc and len(k) > len(v.loc) and k[-1] != '$')
    if len(fields) == 1:
      return fields[0][1]
    return tuple(fields)
  return v


def compare(c, F, impl, ref, modulus=None, interp=vn.VN, split=True):
  """All (partition, path) pairs: impl must yield ref's value, without UB."""
  name = T.short(impl['n'])[5:]
  paths = 0
  bad = set()
  where = None
  for vs, iv in params(ref, split):
    it = interp(F)
    it.check_ub = False
    st = absint.State()
    st.iv = dict(iv)
    states = [st]
    for v, prm in zip(vs, ref['p']):
      if isinstance(v, Ref):
        states = materialise(v.loc, prm.get('ct') or prm['t'], it, states)
    for rv, rs in [o for st in states for o in it.call_fn(ref, None, vs, st)]:
      want = result(rv, rs, it)
      it2 = interp(F)
      it2.check_ub = True
      s = rs.clone()
      s.env, s.this, s.temps, s.log = {}, None, [], []
      try:
        outs = it2.call_fn(impl, None, vs, s)
      finally:
        for x in it2.inlined:
          if not x.startswith('@tu/') and where is None:
            where = x.split(' ')[0]
      for iv2, s2 in outs:
        paths += 1
        got = result(iv2, s2, it2)
        for e in s2.log:
          if e[0] == 'UB':
            bad.add('undefined behaviour at line %s: %s, for %s' % (e[1], e[2], show(vs, iv, s2)))
        ok = equal(got, want, s2, it2, modulus)
        if not ok and unknown(got, want):
          raise absint.Unsupported('the result %r is outside the domain (defined as %r)' % (got, want))
        if not ok:
          bad.add('computes %r instead of %r for %s' % (got, want, show(vs, iv, s2)))
  for b in sorted(bad)[:3]:
    c.bad(where or impl['n'], '%s %s' % (name, b), key='%s: %s' % (name, b.split(' at line')[0].split(' for ')[0]))
  if not bad:
    c.ok('%s: %d abstract paths equal' % (name, paths))
  c.count('abstract_paths', paths)


def unknown(g, w):
  """Whether a mismatch may come from a value the domain does not represent."""
  if isinstance(g, tuple) and isinstance(w, tuple) and g and w and g[0] == w[0] == 'opt':
    p, q = (x.const() if isinstance(x, Aff) else int(x) if isinstance(x, bool) else None for x in (g[1], w[1]))
    if p is not None and q is not None and p != q:
      return False
    return p is None or q is None or unknown(g[2], w[2])
  if isinstance(g, tuple):
    if isinstance(w, tuple) and len(g) == len(w):
      for a, b in zip(g, w):
        p, q = (x[1].const() if isinstance(x[1], Aff) else int(x[1]) if isinstance(x[1], bool) else None for x in (a, b))
        if a[0] == b[0] and p is not None and q is not None and p != q:
          return False
    return any(unknown(x[1] if isinstance(x, tuple) else x, w) for x in g)
  if isinstance(g, vn.Term):
    return any(isinstance(x, absint.Top) or isinstance(x, vn.Term) and unknown(x, None) for x in g.a)
  return isinstance(g, (absint.Top, absint.Const)) or g is None


def show(vs, iv, st):
  out = []
  for v in vs:
    if isinstance(v, Aff) and v.const() is not None:
      out.append(str(v.const()))
    elif isinstance(v, Aff):
      out.append('%r in [%s, %s]' % ((v,) + st.iv.get(repr(v), ('?', '?'))))
    elif isinstance(v, Ref) and v.loc + ('present',) in st.heap:
      out.append('%s %s' % (v, 'present' if st.heap[v.loc + ('present',)].k else 'missing'))
  for k, r in st.heap.items():
    if k[0] == 'rel':
      out.append('%r %s %r' % (k[1], {'?': 'unordered with'}.get(r, r), k[2]))
    elif k[0] == 'pred':
      out.append('%s%s(%r)' % ('' if r else '!', k[1], k[2]))
  return ', '.join(out) or 'every input'


def run_group(c, tu, group, scope_inst, modulus=None, interp=vn.VN, minimum=1, split=True, only=None):
  F = facts.load(facts.Scope(inst=scope_inst + ['@tu/'], extra=[os.path.join(facts.VERIF, 'tu', tu)]))
  wit = {}
  for f in F.functions:
    if f['n'].startswith('witness::'):
      wit.setdefault(T.short(f['n']), f)
  names = [n[5:] for n in wit if n.startswith('impl_' + group)]
  c.need(len(names) >= minimum, '%d operators in group %s, expected at least %d' % (len(names), group, minimum))
  for n in sorted(names):
    c.need('ref_' + n in wit, 'reference of %s' % n)
    m = modulus
    if m == 'int':
      m = 2**32 if n.endswith('int32_t') else 2**64
    try:
      compare(c, F, wit['impl_' + n], wit['ref_' + n], m, interp, split)
    except absint.Unsupported as e:
      c.undecided(n, str(e))
  c.count('operators', len(names))
