"""N01: paths to tables and columns, their ids and their names under every policy."""
import itertools
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import absint
from absint import Aff, Ptr, Ref, Obj, Const, Top, Fn, Unsupported
import containers
from containers import K, idx
import facts
import parcases
import rawbuf
import report
import statuses
from statuses import is_status
import strs
from strs import Name, S
import tree as T

RULE = ('Abstract interpretation of naming/ from witness calls, on paths of up to four segments with opaque names and every pattern of index marks: what each operation makes of the segments, '
        'which texts it produces and parses, and which paths compare equal.')
EVENTS = ('use-after-move', 'null-deref', 'use-after-free', 'out-of-bounds', 'out-of-range', 'bad-access')
NS = 'arolla::naming::'
F = None
FN = {}


class I(strs.Strings, statuses.Statuses, rawbuf.Optionals, containers.Containers):
  DEPTH = 40
  LOOP = 100

  def unknown(self, n, obj, args, st):
    raise Unsupported('call of %s at line %s' % (T.callee_name(n) or n.get('cls'), n.get('l')))

  def e_Init(self, n, st):
    if (n.get('t') or '').endswith(']') and not n.get('cls'):
      n = dict(n, t='std::initializer_list<>', ct='std::initializer_list<>')
    return super().e_Init(n, st)

  def construct0(self, n, args, st):
    cls = n.get('cls') or ''
    if cls in ('absl::StatusOr', 'absl::StatusBuilder', 'absl::status_macro_shim::Adaptor', 'absl::str_format_internal::FormatSpecTemplate'):
      r = self.status_model(cls + '::' + T.short(cls), n, None, args, st)
      if r is not None:
        return r
    if cls == 'std::__cmp_cat::__unspec':
      return [(K(0), st)]
    if cls == 'absl::NoDestructor':
      t = (n.get('ct') or n.get('t') or '').replace('const ', '')
      t = t[t.index('<') + 1:t.rindex('>')].strip()
      l = ('static', t)
      if l + ('$',) in st.heap:
        return [(Obj(l, n), st)]
      st.heap[l + ('$',)] = Const(t)
      full = [f['cls'] for f in F.functions if f.get('ctor') and f['file'].startswith('arolla/naming') and f.get('cls') and T.short(f['cls']) == T.short(t)]
      t = full[0] if full else t
      l = ('static', t)
      st.heap[l + ('$',)] = Const(t)
      ctors = [f for f in F.functions if f.get('ctor') and f.get('cls') == t and not f['p'] and f.get('body') is not None]
      if len(ctors) != 1:
        raise Unsupported('constructor of ' + t)
      return [(Obj(l, n), s) for _, s in self.call_fn(ctors[0], l, [], st)]
    return super().construct0(n, args, st)

  def ctor_init(self, i, this, st):
    if 'm' not in i and not i.get('deleg') and isinstance(i.get('e'), dict) and i['e']['k'] == 'Ctor':
      e = i['e']
      fn = self.find_fn(e)
      if fn is not None and fn.get('body') is not None:
        return [s2 for args, s in self.evs(e['a'], st) for _, s2 in self.call_fn(fn, this, args, s, e)]
    return super().ctor_init(i, this, st)

  def model(self, name, n, obj, args, st):
    cls = n.get('cls') or ''
    if cls == 'absl::NoDestructor' and obj is not None:
      l = self.obj_loc(obj, n, st)
      return [(Ptr(l) if n.get('op') == '->' or T.short(name) == 'get' else Ref(l), st)]
    if n['k'] == 'MCall' and n.get('virt') and obj is not None:
      l = self.obj_loc(obj, n, st)
      t = st.heap.get(l + ('$',))
      if isinstance(t, Const):
        sig = [strs.bare(a.get('ct') or a['t']) for a in n['a']]
        m = [f for f in F.functions if f.get('cls') == t.v and T.short(f['n']) == T.short(name) and f.get('body') is not None and [strs.bare(p.get('ct') or p['t']) for p in f['p']] == sig]
        if len(m) != 1:
          raise Unsupported('%s of %s' % (name, t.v))
        return self.call_fn(m[0], l, args, st, n)
    if n['k'] == 'OCall' and n.get('op') == '=' and cls.startswith(NS) and obj is not None and self.find_fn(n) is None and isinstance(args[0], (Ref, Obj)):
      src = self.target(args[0], st) if isinstance(args[0], Ref) else args[0].loc
      dst = self.target(obj, st)
      if src != dst:
        self.copy_obj(src, dst, st)
        if isinstance(args[0], Ref) and T.is_move(n['a'][-1]):
          self.moved_from(src, st)
      return [(obj, st)]
    return super().model(name, n, obj, args, st)


def new():
  return I(F), absint.State()


def one(it, fn, args, st, bad):
  """The only outcome of a witness; its events go to `bad`."""
  mark = len(st.log)
  outs = it.call_fn(FN[fn], None, args, st)
  if len(outs) != 1:
    raise Unsupported('%s has %d outcomes' % (fn, len(outs)))
  v, s = outs[0]
  for e in s.log[mark:]:
    if e[0] in EVENTS:
      bad.append('%s: %s' % (e[0], e[-1]))
  return v, s


def keep(it, v, s, loc):
  """Puts a result into memory at `loc`."""
  v = it.load(v, s)
  if isinstance(v, Obj):
    it.consume(v, s)
    it.copy_obj(v.loc, loc, s)
  else:
    s.heap[loc] = v
  return Ref(loc)


def path(it, st, kind, name, segments, bad):
  """A path variable made by the public constructors. -> (Ref, state)"""
  el = []
  for i, (t, f) in enumerate(segments):
    v, st = one(it, 's_make', [S(t), f], st, bad)
    el.append(keep(it, v, st, ('seg', name, i)))
  l = ('vec', name)
  it.new_vec(st, l, [Obj(r.loc) for r in el])
  v, st = one(it, kind + '_make', [Obj(l)], st, bad)
  return keep(it, v, st, (kind, name)), st


def segments(it, kind, ref, st, bad):
  v, st = one(it, kind + '_segments', [ref], st, bad)
  out = []
  for l in it.elements(v, st):
    n, st = one(it, 's_name', [Ref(l)], st, bad)
    f, st = one(it, 's_index', [Ref(l)], st, bad)
    n, f = it.text(n, st), it.load(f, st)
    out.append((tuple(n), bool(f.const()) if isinstance(f, Aff) else f))
  return out


def case(t):
  bad = []
  I.asked, I.answer = set(), False
  try:
    judge(t, bad)
    if len(I.asked) > 1:
      raise Unsupported('what a name begins or ends with')
    if I.asked:
      I.answer = True
      judge(t, bad)
      if len(I.asked) > 1:
        raise Unsupported('what a name begins or ends with')
  except Unsupported as e:
    if 'loop not bounded' not in str(e):
      raise
    bad.append('a loop takes more than %d rounds' % I.LOOP)
  return [t[0] + ': ' + x for x in dict.fromkeys(bad)]


def N(x):
  return (Name(x),)


def names(p):
  return [(tuple('Ext::') + N(x[1:]) if x.startswith('+') else N(x) if not x.startswith('@') else tuple(x), f) for x, f in p]


def show(segs):
  return '/'.join(''.join(map(str, t)) + ('[:]' if f else '') for t, f in segs) or 'the root'


def full(segs, marks):
  return tuple(x for t, f in segs for x in ('/',) + t + (tuple('[:]') if marks and f else ()))


def ids(p):
  return full(p, True)


def policy_text(kind, segs):
  """The text of a path under a policy, from policy.h."""
  low = lambda x: Name(strs.transformed(strs.transformed(x, 'lower'), '.:_')) if isinstance(x, Name) else x
  ext = lambda t: t[:5] == tuple('Ext::')
  join = lambda sep, f: tuple(x for i, (t, _) in enumerate(segs) for x in ((tuple(sep) if i else ()) + f(t)))
  if kind == 'default':
    return full(segs, False)
  if kind == 'protopath_id':
    return full(segs, True)
  if kind == 'double_underscore':
    return join('__', lambda t: tuple(low(x) for x in t[5:]) if ext(t) else t)
  if kind == 'single_underscore':
    return join('_', lambda t: t)
  if kind == 'googlesql':
    return join('.', lambda t: ('(',) + t[5:] + (')',) if ext(t) else t)
  if segs and segs[-1][0] == tuple('@size'):
    return full(segs, False)
  return segs[-1][0] if segs else ()


def parse(items):
  """The segments of an id, None for an error."""
  if not items:
    return []
  if items[0] != '/':
    return None
  parts = strs.segs(items)[1:]
  if not parts[-1]:
    parts = parts[:-1]
  return [(tuple(p[:-3]), True) if p[-3:] == list('[:]') else (tuple(p), False) for p in parts]


def judge(t, bad):
  fn, a = t[0], t[1:]
  it, st = new()
  kind = fn[0]

  def result(v, s, kind, want, what, opt=False):
    """The path `v` has the segments `want`."""
    v = it.load(v, s)
    if opt:
      l = it.obj_loc(v, {}, s)
      has = s.heap.get(l + ('$has',))
      if has != (want is not None):
        bad.append('%s: %s' % (what, 'no path' if want is not None else 'a path instead of none'))
        return
      if want is None:
        return
      v = it.load(Ref(l + ('$val',)), s)
    got = segments(it, kind, keep(it, v, s, ('result',)), s, bad)
    if got != want:
      bad.append('%s: %s instead of %s' % (what, show(got), show(want)))

  def status_result(v, s, kind, want, what):
    v = it.load(v, s)
    if is_status(v) != (want is None):
      bad.append('%s: %s' % (what, 'an error' if want is not None else 'no error'))
      return
    if want is not None:
      result(Obj(v.loc + ('v',)), s, kind, want, what)

  def text(v, s, want, what):
    got = it.text(v, s)
    if tuple(got) != tuple(want):
      bad.append('%s: %s instead of %s' % (what, ''.join(map(str, got)) or 'nothing', ''.join(map(str, want)) or 'nothing'))

  def unchanged(kind, ref, s, want, what):
    got = segments(it, kind, ref, s, bad)
    if got != want:
      bad.append('%s: the operand becomes %s' % (what, show(got)))

  if fn in ('t_make', 'c_make'):
    p = names(a[0])
    r, st = path(it, st, kind, 'p', p, bad)
    unchanged(kind, r, st, p, show(p))
  elif fn in ('t_name', 'c_name'):
    v, s = one(it, fn, [S(N('n')), a[0]], st, bad)
    result(v, s, kind, [(N('n'), a[0])], 'one segment')
  elif fn in ('t_child', 't_child_moved', 't_column'):
    p = names(a[0])
    r, st = path(it, st, 't', 'p', p, bad)
    arg = r if fn != 't_child_moved' else Obj(r.loc)
    v, s = one(it, fn, [arg, S(N('n')), a[1]], st, bad)
    result(v, s, 'c' if fn == 't_column' else 't', p + [(N('n'), a[1])], show(p))
    if fn != 't_child_moved':
      unchanged('t', r, s, p, show(p))
  elif fn in ('t_child_path', 't_column_path', 't_size_path'):
    p, q = names(a[0]), names(a[1])
    r, st = path(it, st, 't', 'p', p, bad)
    k = 'c' if fn == 't_column_path' else 't'
    r2, st = path(it, st, k, 'q', q, bad)
    v, s = one(it, fn, [r, r2], st, bad)
    what = '%s and %s' % (show(p), show(q))
    result(v, s, 't' if fn == 't_child_path' else 'c', p + q + ([(tuple('@size'), False)] if fn == 't_size_path' else []), what)
    unchanged('t', r, s, p, what)
    unchanged(k, r2, s, q, what)
  elif fn in ('t_size', 't_keys', 't_values'):
    p = names(a[0])
    r, st = path(it, st, 't', 'p', p, bad)
    if fn == 't_size':
      v, s = one(it, fn, [r, S(N('n') if a[1] else ())], st, bad)
      want = p + ([(N('n'), False)] if a[1] else []) + [(tuple('@size'), False)]
    else:
      v, s = one(it, fn, [r], st, bad)
      want = p + [(tuple('@key' if fn == 't_keys' else '@value'), False)]
    result(v, s, 'c' if fn == 't_size' else 't', want, show(p))
    unchanged('t', r, s, p, show(p))
  elif fn in ('t_full', 'c_full', 't_id', 'c_id'):
    p = names(a[0])
    r, st = path(it, st, kind, 'p', p, bad)
    marks = fn.endswith('id') or a[1]
    v, s = one(it, fn, [r] + ([a[1]] if fn.endswith('full') else []), st, bad)
    text(v, s, full(p, marks), show(p))
    unchanged(kind, r, s, p, show(p))
    if fn.endswith('id'):
      v2, s2 = one(it, kind + '_from', [v], s, bad)
      status_result(v2, s2, kind, p, 'parsing the id of %s' % show(p))
  elif fn in ('t_from', 'c_from'):
    items = tuple(Name(x[1:]) if x[0] == '$' else c for x in a[0] for c in ([x] if x[0] == '$' else x))
    items = tuple(Name(x[1:]) if isinstance(x, str) and x[0] == '$' and len(x) > 1 else x for x in items)
    v, s = one(it, fn, [S(items)], st, bad)
    status_result(v, s, kind, parse(items), "parsing '%s'" % ''.join(map(str, items)))
  elif fn in ('t_parent', 'c_parent'):
    p = names(a[0])
    r, st = path(it, st, kind, 'p', p, bad)
    v, s = one(it, fn, [r], st, bad)
    n = len(p) - (1 if kind == 't' and p and p[-1][1] else 0)
    while n and not p[n - 1][1]:
      n -= 1
    result(v, s, 't', None if kind == 't' and not p else p[:n], show(p), kind == 't')
    unchanged(kind, r, s, p, show(p))
  elif fn in ('t_remove', 'c_remove'):
    p, q = names(a[0]), names(a[1])
    r, st = path(it, st, kind, 'p', p, bad)
    r2, st = path(it, st, 't', 'q', q, bad)
    v, s = one(it, fn, [r, r2], st, bad)
    what = '%s without %s' % (show(p), show(q))
    status_result(v, s, kind, p[len(q):] if p[:len(q)] == q else None, what)
    unchanged(kind, r, s, p, what)
    unchanged('t', r2, s, q, what)
  elif fn in ('t_equal', 't_differ', 'c_equal', 'c_differ', 's_equal', 's_differ'):
    p, q = names(a[0]), names(a[1])
    if kind == 's':
      (v1, st) = one(it, 's_make', [S(p[0][0]), p[0][1]], st, bad)
      r = keep(it, v1, st, ('p',))
      (v2, st) = one(it, 's_make', [S(q[0][0]), q[0][1]], st, bad)
      r2 = keep(it, v2, st, ('q',))
    else:
      r, st = path(it, st, kind, 'p', p, bad)
      r2, st = path(it, st, kind, 'q', q, bad)
    v, s = one(it, fn, [r, r2], st, bad)
    for b, _ in it.truth(it.load(v, s), s):
      if b != ((p == q) == fn.endswith('equal')):
        bad.append('%s and %s compare %s' % (show(p), show(q), 'equal' if b == fn.endswith('equal') else 'different'))
  elif fn in ('t_less', 'c_less', 's_less'):
    order(fn, a[0], bad)
  elif fn == 's_extension':
    for x in (N('n'), tuple('Ext::') + N('n'), tuple('@size')):
      it, st = new()
      v, st = one(it, 's_make', [S(x), False], st, bad)
      v, s = one(it, fn, [keep(it, v, st, ('p',))], st, bad)
      if it.load(v, s) != (x[0] == 'E'):
        bad.append('%s %s an extension' % (''.join(map(str, x)), 'is not' if x[0] == 'E' else 'is'))
  elif fn in ('field_access', 'map_access', 'array_access', 'extension_access'):
    args = {'map_access': [S(N('k'))], 'array_access': [K(7)]}.get(fn, [])
    v, s = one(it, fn, [S(N('f'))] + args, st, bad)
    text(v, s, {'field_access': N('f'), 'map_access': N('f') + tuple('["') + N('k') + tuple('"]'), 'array_access': N('f') + tuple('[7]'), 'extension_access': tuple('Ext::') + N('f')}[fn], 'the name')
  elif fn == 'policy':
    v, s = one(it, fn, [S(a[0])], st, bad)
    v = it.load(v, s)
    known = a[0] in POLICIES
    if is_status(v) == known:
      bad.append("'%s': %s" % (a[0], 'an error' if known else 'no error'))
    elif known:
      v, s = one(it, 'policy_name', [keep(it, Obj(v.loc + ('v',)), s, ('pol',))], s, bad)
      text(v, s, a[0], "the name of '%s'" % a[0])
  else:
    p = names(a[1])
    kind = 't' if fn == 'policy_table' else 'c'
    r, st = path(it, st, kind, 'p', p, bad)
    v, s = one(it, 'policy', [S(a[0])], st, bad)
    v = it.load(v, s)
    if is_status(v):
      return
    v, s = one(it, fn, [keep(it, Obj(v.loc + ('v',)), s, ('pol',)), r], s, bad)
    text(v, s, policy_text(a[0], p), "%s under '%s'" % (show(p), a[0]))


def order(fn, ps, bad):
  """operator< is a strict total order that agrees with equality."""
  less = {}
  kind = fn[0]
  for i, p in enumerate(ps):
    for j, q in enumerate(ps):
      it, st = new()
      if kind == 's':
        v, st = one(it, 's_make', [S(names(p)[0][0]), p[0][1]], st, bad)
        r = keep(it, v, st, ('p',))
        v, st = one(it, 's_make', [S(names(q)[0][0]), q[0][1]], st, bad)
        r2 = keep(it, v, st, ('q',))
      else:
        r, st = path(it, st, kind, 'p', names(p), bad)
        r2, st = path(it, st, kind, 'q', names(q), bad)
      v, s = one(it, fn, [r, r2], st, bad)
      v = it.load(v, s)
      less[i, j] = v if isinstance(v, bool) else bool(v.const())
  for i, p in enumerate(ps):
    if less[i, i]:
      bad.append('%s is before itself' % show(names(p)))
    for j in range(len(ps)):
      if i < j and less[i, j] == less[j, i]:
        bad.append('%s and %s: %s' % (show(names(p)), show(names(ps[j])), 'each before the other' if less[i, j] else 'neither before the other'))
        return
      if less[i, j] and any(less[j, k] and not less[i, k] for k in range(len(ps))):
        bad.append('the order is not transitive')
        return


POLICIES = ('default', 'double_underscore', 'single_underscore', 'leaf_only', 'protopath_id', 'googlesql')


def paths(n, letters='abcd'):
  for k in range(n + 1):
    for f in itertools.product((False, True), repeat=k):
      yield tuple(zip(letters, f))


def small(n, letters='pq'):
  for k in range(n + 1):
    yield from itertools.product([(x, f) for x in letters for f in (False, True)], repeat=k)


def cases():
  P = list(paths(4)) + [p for p in small(2, ('p', '+e', '@size')) if any(x[0] != 'p' for x in p) or p[:1] == p[1:]]
  for p in P:
    for fn in ('t_make', 'c_make', 't_keys', 't_values', 't_id', 'c_id', 't_parent', 'c_parent'):
      yield fn, p
    for b in (False, True):
      for fn in ('t_child', 't_child_moved', 't_column', 't_size', 't_full', 'c_full'):
        yield fn, p, b
  for b in (False, True):
    yield 't_name', b
    yield 'c_name', b
  for p in paths(2):
    for q in paths(2, 'xy'):
      for fn in ('t_child_path', 't_column_path', 't_size_path'):
        yield fn, p, q
  for p in small(2):
    for q in small(2):
      if p and q:
        for fn in ('t_child_path', 't_column_path', 't_size_path'):
          yield fn, p, q
  for n in range(6):
    for s in itertools.product(('/', '$n', '[:]'), repeat=n):
      if not any(x == y == '$n' for x, y in zip(s, s[1:])):
        q = tuple('$n%d' % i if x == '$n' else x for i, x in enumerate(s))
        yield 't_from', q
        yield 'c_from', q
  for p in P:
    if len(p) > 3:
      continue
    if p and p[0][0] != 'a':
      yield 't_remove', p, p[:1]
      yield 'c_remove', p, p[:1]
      continue
    for k in range(len(p) + 1):
      q = p[:k]
      for m in [q] + [q[:i] + (('z', q[i][1]),) + q[i + 1:] for i in range(k)] + [q[:i] + ((q[i][0], not q[i][1]),) + q[i + 1:] for i in range(k)] + [p + (('y', False),), p[1:]]:
        yield 't_remove', p, m
        yield 'c_remove', p, m
  E = list(small(2))
  for p in E:
    for q in E:
      for fn in ('t_equal', 't_differ', 'c_equal', 'c_differ'):
        yield fn, p, q
      if len(p) == len(q) == 1:
        yield 's_equal', p, q
        yield 's_differ', p, q
  yield 't_less', tuple(small(2))
  yield 'c_less', tuple(small(2))
  yield 's_less', tuple(p for p in small(1) if p)
  for x in ('s_extension', 'field_access', 'map_access', 'array_access', 'extension_access'):
    yield (x,)
  for x in POLICIES + ('', 'unknown', 'Default', 'leaf'):
    yield 'policy', x
  for x in POLICIES:
    for p in list(paths(3)) + [q[:-1] + (('@size', False),) for q in paths(3) if q] + [q[:i] + (('+e', f),) + q[i + 1:] for q in paths(3) for i in range(len(q)) for f in (False, True)]:
      yield 'policy_table', x, p
      yield 'policy_column', x, p


NAMES = ('t_make', 'c_make', 't_name', 'c_name', 't_child', 't_child_moved', 't_child_path', 't_column', 't_column_path', 't_size', 't_size_path', 't_keys', 't_values', 't_parent', 'c_parent',
         't_remove', 'c_remove', 't_full', 'c_full', 't_id', 'c_id', 't_from', 'c_from', 't_equal', 't_differ', 'c_equal', 'c_differ', 's_equal', 's_differ', 't_less', 'c_less', 's_less',
         's_extension', 'field_access', 'map_access', 'array_access', 'extension_access', 'policy', 'policy_table', 'policy_column')


def load():
  global F
  F = facts.load(facts.Scope(inst=['arolla/naming/', 'arolla/util/string', 'arolla/util/operator_name', '@tu/'], extra=[os.path.join(facts.VERIF, 'tu', 'naming.cc')]))
  FN.clear()
  for f in F.functions:
    if f['n'].startswith('witness::') and f['kind'] == 'plain':
      FN[T.short(f['n'])] = f
  return F


def site(name):
  for x in T.walk_fn(FN[name]):
    for f in F.functions + F.insts:
      if f['file'].startswith('arolla/') and f['u'] in (x.get('u'), x.get('iu')) and f['u']:
        return '%s:%d' % (f['file'], f['l'])
  return 'arolla/naming/table.h'


def main(c):
  load()
  parcases.check(c, case, list(cases()), NAMES, FN, {f: site(f) for f in NAMES if f in FN})


if __name__ == '__main__':
  report.main('N01', RULE, main)
