"""E05: control flow graphs, their dominator trees and what is derived from them."""
import itertools
import os
import re
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import absint
from absint import Aff, Ptr, Ref, Obj, Const, Top, Fn, Unsupported
import containers
from containers import K, idx
import facts
import parcases
import rawbuf
import report
import statuses
from statuses import OK, is_status
import tree as T

RULE = ('Abstract interpretation of algorithm/control_flow_graph.{h,cc} over every shape of graph with up to 5 nodes and every lists of edges of a few, with ids outside the graph symbolic: exactly the acyclic graphs whose nodes are all reachable are accepted and keep their edges; '
        'the dominator tree is the relation "every path from the entry passes through" of the graph; frontiers and externalized graphs are those of the definition; no vector is indexed outside.')
EVENTS = ('out-of-bounds', 'null-deref', 'use-after-free', 'use-after-move')
TEXT = ('std::basic_string_view', 'absl::string_view', 'std::basic_string', 'absl::AlphaNum', 'absl::str_format_internal::FormatSpecTemplate', 'absl::str_format_internal::FormatArgImpl')
F = None
FN = {}


class Fault(Exception):
  """Certain on this path."""


class I(statuses.Statuses, rawbuf.Optionals, containers.Containers):
  DEPTH = 40

  def construct0(self, n, args, st):
    if (n.get('cls') or '') in TEXT:
      return [(Const('text'), st)]
    cls = n.get('cls') or ''
    if cls in ('absl::StatusOr', 'absl::StatusBuilder', 'absl::status_macro_shim::Adaptor', 'absl::Status'):
      r = self.status_model(cls + '::' + T.short(cls), n, None, args, st)
      if r is not None:
        return r
    if cls == 'std::vector' and not n.get('copy') and not n.get('move'):
      t = (n.get('ct') or n.get('t') or '')
      el = re.sub(r'^(const )?(std::)?vector<(.*)>$', r'\3', t)
      k = self.load(args[0], st) if len(args) == 1 or len(args) == 2 and n['a'][1]['k'] == 'DfltArg' else None
      if isinstance(k, Aff) and k.const() is not None:
        loc = st.fresh('vec')
        self.new_vec(st, loc)
        self.grow(loc, k.const(), el, st)
        outs = [(Obj(loc, n), st)]
      else:
        outs = super().construct0(n, args, st)
      for v, s in outs:
        if isinstance(v, Obj):
          s.heap[v.loc + ('$el',)] = Const(el)
      return outs
    return super().construct0(n, args, st)

  def grow(self, loc, k, el, st):
    """Values made from nothing at the end of a vector."""
    for i in range(self.size_of(loc, st), k):
      self.zero(loc + (idx(i),), el, st)
    st.heap[loc + ('len',)] = K(k)

  def zero(self, loc, t, st):
    t = t.replace('const ', '')
    if t.startswith(('std::vector<', 'vector<')):
      self.new_vec(st, loc)
      st.heap[loc + ('$el',)] = Const(re.sub(r'^(std::)?vector<(.*)>$', r'\2', t))
      return
    rec = [r for n, rs in self.F.records.items() if n == t or n.endswith('::' + t) for r in rs]
    if len(rec) == 1 and rec[0].get('fields'):
      for f in rec[0]['fields']:
        self.zero(loc + (f['n'],), f.get('ct') or f['t'], st)
      return
    st.heap[loc] = K(0)

  def vec(self, sh, n, loc, args, st):
    L = self.size_of(loc, st)
    if sh in ('operator[]', 'at'):
      i = self.load(args[0], st)
      if isinstance(i, Aff):
        lo, hi = absint.rng(i, st)
        if lo < 0 or hi >= L:
          raise Fault('a vector of %d elements is indexed outside at line %s' % (L, n['l']))
    if sh == 'insert' and len(args) == 2:
      p = self.load(args[0], st)
      if isinstance(p, Const) and isinstance(p.v, tuple) and p.v[:2] == ('it', loc):
        v = self.take(args[1], n, st)
        for i in range(L, p.v[2], -1):
          self.drop(loc, i, st)
          self.copy_obj(loc + (idx(i - 1),), loc + (idx(i),), st)
        self.drop(loc, p.v[2], st)
        self.init_at(loc + (idx(p.v[2]),), v, st)
        st.heap[loc + ('len',)] = K(L + 1)
        return [(p, st)]
    el = st.heap.get(loc + ('$el',))
    if sh == 'resize' and len(args) == 1 and el is not None:
      k = self.load(args[0], st)
      if isinstance(k, Aff) and k.const() is not None and k.const() >= self.size_of(loc, st):
        self.grow(loc, k.const(), el.v, st)
        return [(Top('void'), st)]
    if sh == 'assign' and len(args) == 2:
      k = self.load(args[0], st)
      if isinstance(k, Aff) and k.const() is not None:
        for i in range(self.size_of(loc, st)):
          self.drop(loc, i, st)
        self.new_vec(st, loc, [self.load(args[1], st)] * k.const())
        return [(Top('void'), st)]
    if sh == 'emplace_back' and not args and el is not None:
      k = self.size_of(loc, st)
      self.grow(loc, k + 1, el.v, st)
      return [(Ref(loc + (idx(k),)), st)]
    return super().vec(sh, n, loc, args, st)

  def unknown(self, n, obj, args, st):
    raise Unsupported('call of %s at line %s' % (T.callee_name(n) or n.get('cls'), n.get('l')))

  def model(self, name, n, obj, args, st):
    sh = T.short(name)
    if sh in ('StrFormat', 'StrCat') or name.startswith('std::basic_string'):
      return [(Const('text'), st)]
    if name.endswith('PreconditionError') or name.endswith('ArgumentError'):
      return [(statuses.error('invalid'), st)]
    if name in ('std::min', 'std::max') and len(args) == 1:
      els = self.elements(args[0], st)
      if els:
        vs = [self.load(Ref(l), st) for l in els]
        if all(isinstance(v, Aff) and v.const() is not None for v in vs):
          return [(K((min if sh == 'min' else max)(v.const() for v in vs)), st)]
    if name.startswith('std::_Bit_reference::'):
      at = obj.loc if isinstance(obj, Obj) else self.target(obj, st)
      if sh == 'operator=':
        v = self.load(args[0], st)
        if isinstance(v, Top):
          raise Unsupported('element of a vector of bool')
        st.heap[at] = v
        return [(Ref(at), st)]
      if sh == 'operator bool':
        return [(self.load(Ref(at), st), st)]
    return super().model(name, n, obj, args, st)


class Run:

  def __init__(self):
    self.it = I(F)
    self.st = absint.State()

  def call(self, fn, *args, st=None):
    outs = self.it.call_fn(FN[fn], None, list(args), st or self.st)
    if len(outs) != 1:
      raise Unsupported('%s has %d outcomes' % (fn, len(outs)))
    return outs[0]

  def keep(self, v, name):
    loc = (name,)
    self.it.copy_obj(v.loc, loc, self.st)
    return Ref(loc)

  def deps(self, graph):
    loc = ('deps',)
    self.it.new_vec(self.st, loc, [K(0)] * len(graph))
    for i, ds in enumerate(graph):
      del self.st.heap[loc + (idx(i),)]
      vs = []
      for j, d in enumerate(ds):
        if isinstance(d, tuple):                 # an arbitrary id in a range
          nm = 'x%d_%d' % (i, j)
          self.st.iv[nm] = d
          vs.append(Aff({nm: 1}))
        else:
          vs.append(K(d))
      self.it.new_vec(self.st, loc + (idx(i),), vs)
    return Obj(loc)

  def list(self, v):
    els = self.it.elements(v, self.st)
    if els is None:
      raise Unsupported('list %r' % (v,))
    return [self.num(Ref(l)) for l in els]

  def num(self, v):
    v = self.it.load(v, self.st)
    if isinstance(v, bool):
      return int(v)
    if not isinstance(v, Aff):
      raise Unsupported('number %r' % (v,))
    return v.const() if v.const() is not None else repr(v)

  def graph_of(self, v, name, bad, what):
    """The graph held by a StatusOr<unique_ptr>, or None for an error."""
    v0 = self.it.load(v, self.st)
    if is_status(v0):
      if v0 == OK:
        bad.append('%s: neither a graph nor an error' % what)
      return None
    loc = v.loc
    if self.st.heap.get(loc + ('$',)) != Const('absl::StatusOr'):
      raise Unsupported('result %r' % (v,))
    p = self.st.heap.get(loc + ('v', 'p'))
    if not isinstance(p, Ptr) or p.loc is None:
      raise Unsupported('graph %r' % (p,))
    return Ref(p.loc)

  def shown(self, g):
    n = self.num(self.call('c_nodes', g)[0])
    return n, [self.list(self.call('c_deps', g, K(i))[0]) for i in range(n)], [self.list(self.call('c_reverse', g, K(i))[0]) for i in range(n)]


def reverse(graph):
  out = [[] for _ in graph]
  for a, ds in enumerate(graph):
    for d in ds:
      out[d].append(a)
  return out


def dominators(graph):
  """[set of the dominators] by the definition: removing d makes the node unreachable."""
  n = len(graph)

  def reach(without):
    seen = set()
    todo = [0] if without != 0 else []
    while todo:
      x = todo.pop()
      if x in seen:
        continue
      seen.add(x)
      todo += [d for d in graph[x] if d != without]
    return seen
  seen = [reach(d) for d in range(n)]
  return [{d for d in range(n) if d == v or v not in seen[d]} for v in range(n)]


def valid(graph):
  return bool(graph) and all(not isinstance(d, tuple) and a < d < len(graph) for a, ds in enumerate(graph) for d in ds) and all(reverse(graph)[1:])


def case(t):
  bad = []
  try:
    judge(t, bad)
  except Fault as e:
    bad.append('graph %s: %s' % (t[1], e))
  except Unsupported:
    if not bad:
      raise
  return [t[0] + ': ' + x for x in dict.fromkeys(bad)]


def judge(t, bad):
  fn, graph = t[:2]
  what = 'graph %s' % (graph,)
  r = Run()
  v, r.st = r.call('c_create', r.deps(graph))
  faults = lambda: bad.extend(sorted({'%s: %s at line %s' % (what, e[0], e[1]) for e in r.st.log if e[0] in EVENTS}))
  faults()
  g = r.graph_of(v, 'g', bad, what)
  if not valid(graph):
    if g is not None:
      bad.append('%s is accepted' % what)
    return
  if g is None:
    bad.append('%s is rejected' % what)
    return
  if fn == 'c_create':
    if r.shown(g) != (len(graph), [list(d) for d in graph], reverse(graph)):
      bad.append('%s: the edges are %s' % (what, r.shown(g)))
    faults()
    return
  v, r.st = r.call('d_make', g)
  tree = r.keep(v, 'tree')
  n = len(graph)
  dom = dominators(graph)
  depth = [len(d) - 1 for d in dom]
  parent = [max(d - {v}, key=lambda x: depth[x]) if v else 0 for v, d in enumerate(dom)]
  if fn == 'd_make':
    got = [r.num(r.call('d_parent', tree, K(i))[0]) for i in range(n)]
    if got != parent:
      bad.append('%s: dominators %s instead of %s' % (what, got, parent))
    all_ = r.list(r.call('d_parents', tree)[0])
    if all_ != parent:
      bad.append('%s: parents() is %s instead of %s' % (what, all_, parent))
    got = [r.num(r.call('d_depth', tree, K(i))[0]) for i in range(n)]
    if got != depth:
      bad.append('%s: depths %s instead of %s' % (what, got, depth))
    got = [r.list(r.call('d_children', tree, K(i))[0]) for i in range(n)]
    want = [[c for c in range(1, n) if parent[c] == i] for i in range(n)]
    if got != want:
      bad.append('%s: children %s instead of %s' % (what, got, want))
    if r.num(r.call('d_nodes', tree)[0]) != n:
      bad.append('%s: number of nodes' % what)
  elif fn == 'f_empty':
    v, r.st = r.call('f_empty', g, tree)
    got = [bool(x) for x in r.list(v)]
    rev = reverse(graph)
    want = [not any(any(d in dom[p] for p in rev[x]) and not (d in dom[x] and d != x) for x in range(n)) for d in range(n)]
    if got != want:
      bad.append('%s: empty frontiers %s instead of %s' % (what, got, want))
  elif fn == 'x_externalize':
    glob = t[2]
    loc = ('globals',)
    r.it.new_map(r.st, loc, [K(x) for x in glob], True)
    v, r.st = r.call('x_externalize', g, tree, Ref(loc))
    g2 = r.graph_of(v, 'g2', bad, what)
    if g2 is None:
      bad.append('%s: externalizing %s fails' % (what, glob))
      return
    k, deps, rev = r.shown(g2)
    want = [[d for d in ds if d not in glob] for ds in graph]
    extra = [sorted(x for x in glob if x and parent[x] == i) for i in range(n)]
    if k != n or any([d for d in ds if d not in glob] != want[i] or sorted(d for d in ds if d in glob) != extra[i] for i, ds in enumerate(deps)):
      bad.append('%s: externalizing %s gives %s' % (what, glob, deps))
  faults()


NAMES = ('c_create', 'd_make', 'f_empty', 'x_externalize')


def graphs(n):
  """Every accepted graph of n nodes with increasing single edges."""
  pairs = [(a, b) for b in range(1, n) for a in range(b)]
  for bits in itertools.product((0, 1), repeat=len(pairs)):
    g = [[] for _ in range(n)]
    for x, (a, b) in zip(bits, pairs):
      if x:
        g[a].append(b)
    if all(reverse(g)[1:]):
      yield tuple(tuple(d) for d in g)


def cases(thorough):
  yield ('c_create', ())
  low, high = -2 ** 62, 2 ** 62
  for n in range(1, 4):
    lists = [()]
    for k in (1, 2):
      lists += list(itertools.product(list(range(n)) + ['low', 'high'], repeat=k))
    sub = lambda i, l: tuple((low, i) if d == 'low' else (n, high) if d == 'high' else d for d in l)
    for g in itertools.product(*[[l for l in lists if n < 3 or len(l) < 2 or len([d for d in l if d in ('low', 'high') or d <= i]) == 0 or i == 1 and l[0] == 2] for i in range(n)]):
      yield ('c_create', tuple(sub(i, l) for i, l in enumerate(g)))
  for g in [((2, 1, 2), (2,), ()), ((1, 1, 3, 2), (3, 2, 2), (3,), ())]:
    yield ('c_create', g)
    yield ('d_make', g)
    yield ('f_empty', g)
    yield ('x_externalize', g, (2,))
  for n in range(1, 7 if thorough else 6):
    for k, g in enumerate(graphs(n)):
      yield ('d_make', g)
      yield ('f_empty', g)
      for j, glob in enumerate(itertools.chain.from_iterable(itertools.combinations(range(n), m) for m in range(n + 1))):
        if n < 4 or (j + k) % (7 if n == 5 else 3 if n == 4 else 61) == 0:
          yield ('x_externalize', g, glob)
  if not thorough:
    for k, g in enumerate(graphs(6)):
      if k % 19 == 0:
        yield ('d_make', g)
        yield ('f_empty', g)


def setup():
  global F
  F = facts.load(facts.Scope(inst=['arolla/algorithm/', '@tu/'], extra=[os.path.join(facts.VERIF, 'tu', 'graph.cc')]))
  FN.clear()
  for x in F.functions:
    if x['n'].startswith('witness::') and x['kind'] == 'plain':
      FN[T.short(x['n'])] = x


def site(f):
  n = {'c_create': 'AcyclicCFG::Create', 'd_make': 'DominatorTree::DominatorTree', 'f_empty': 'FindVerticesWithEmptyDominanceFrontier', 'x_externalize': 'ExternalizeNodes'}[f]
  for x in F.by_name.get('arolla::' + n, []):
    return '%s:%d' % (x['file'], x['l'])
  return 'arolla/algorithm/control_flow_graph.cc'


def main(c):
  setup()
  parcases.check(c, case, list(cases(os.environ.get('VERIF_TIER') == 'thorough')), NAMES, FN, {f: site(f) for f in NAMES if f in FN})


if __name__ == '__main__':
  report.main('E05', RULE, main)
