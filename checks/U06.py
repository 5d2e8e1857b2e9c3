"""U06: searching, dispatching and printing helpers compute what they document."""
import itertools
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import absint
from absint import Aff, Ptr, Ref, Obj, Const, Top, Fn, Unsupported
from containers import K, idx
import E05
from E05 import Fault
import facts
import parcases
import report
import tree as T

RULE = ('Abstract interpretation of the helpers over opaque elements: a search over any sequence that an uninterpreted order divides at a position returns that position, compares elements of the range with the value only, and reads nothing outside; '
        'the dispatchers call the callback with the constant equal to every index; the keys of a map with symbolic keys are listed once and in order; sizes are printed from symbolic split points.')
F = None
FN = {}


class I(E05.I):

  def text(self, v, st):
    v = self.load(v, st)
    if isinstance(v, Const) and isinstance(v.v, tuple) and v.v[0] == 'text':
      return v.v[1]
    if isinstance(v, Const) and isinstance(v.v, tuple) and v.v[0] == 'str' and isinstance(v.v[1], str):
      return (v.v[1],)
    if isinstance(v, Const) and isinstance(v.v, str):
      return (v.v,)
    if isinstance(v, Aff):
      return (repr(v),)
    raise Unsupported('text %r' % (v,))

  def construct0(self, n, args, st):
    cls = n.get('cls') or ''
    if cls in E05.TEXT:
      if not args:
        return [(Const(('text', ())), st)]
      return [(Const(('text', self.text(args[0], st))), st)]
    if 'ostringstream' in cls or cls == 'std::basic_stringstream':
      loc = st.fresh('stream')
      st.heap[loc + ('text',)] = Const(('text', self.text(args[0], st) if args and n['a'][0]['k'] != 'DfltArg' else ()))
      return [(Obj(loc, n), st)]
    return super().construct0(n, args, st)

  def model(self, name, n, obj, args, st):
    sh = T.short(name)
    if name == 'witness::before':
      a, b = [x.loc if isinstance(x, (Ref, Obj)) else None for x in args]
      if b != ('val',) or a is None or a[0] != 'xs':
        raise Fault('the order is asked about other things than an element and the value')
      i = self.at(Ptr(a), st)
      if not 0 <= i < self.N:
        raise Fault('element %d of %d is read' % (i, self.N))
      return [(i < self.T, st)]
    if name == 'witness::chosen':
      return [(Const(('chosen', self.load(args[0], st).const())), st)]
    if name == 'std::distance':
      a, b = [self.at(self.load(x, st), st) for x in args]
      return [(K(b - a), st)]
    if name in ('std::advance', 'std::next', 'std::prev'):
      k = self.load(args[1], st) if len(args) > 1 and n['a'][1]['k'] != 'DfltArg' else K(1)
      p = self.shift(self.load(args[0], st), k if sh != 'prev' else k.mul(-1), st)
      if sh == 'advance':
        self.store(self.target(args[0], st), p, st)
        return [(Top('void'), st)]
      return [(p, st)]
    if name in ('std::lower_bound', 'std::upper_bound', 'std::partition_point') or name == 'std::find_if_not':
      if name != 'std::lower_bound':
        raise Unsupported(name)
      p, q = self.load(args[0], st), self.load(args[1], st)
      a, b = self.at(p, st), self.at(q, st)
      if a > b or a < 0 or b > self.N:
        raise Fault('std::lower_bound over [%d, %d) of %d' % (a, b, self.N))
      fn = self.load(args[3], st) if len(args) > 3 else None
      for i in range(a, b):
        x = Ref(self.shift(p, K(i - a), st).loc)
        if fn is None:
          r = self.less(x, args[2], st)
        else:
          outs = self.apply_lambda(fn, [x, args[2]], st)
          if len(outs) != 1:
            raise Unsupported('order')
          r, st = outs[0]
        if not r:
          return [(self.shift(p, K(i - a), st), st)]
      return [(q, st)]
    if name in ('std::sort', 'std::stable_sort', 'absl::c_sort'):
      vs = [self.load(x, st) for x in args]
      if len(vs) == 2 and all(isinstance(v, Const) and isinstance(v.v, tuple) and v.v[0] == 'it' for v in vs):
        loc, a, b = vs[0].v[1], vs[0].v[2], vs[1].v[2]
      elif len(vs) == 1 and isinstance(args[0], (Ref, Obj)):
        loc = args[0].loc
        a, b = 0, self.size_of(loc, st)
      else:
        raise Unsupported(name)
      el = [self.load(Ref(loc + (idx(i),)), st) for i in range(a, b)]
      out = []
      for x in el:
        i = 0
        while i < len(out) and not self.less(x, out[i], st):
          i += 1
        out.insert(i, x)
      for i, x in enumerate(out):
        st.heap[loc + (idx(a + i),)] = x
      return [(Top('void'), st)]
    if sh in ('c_adjacent_find', 'adjacent_find') and len(args) in (2, 3):
      fn = self.load(args[-1], st)
      if sh == 'c_adjacent_find':
        els = self.elements(args[0], st)
        at = lambda i: Ref(els[i])
        p = self.span_begin(args[0], st)
        k = len(els)
      else:
        p, q = self.load(args[0], st), self.load(args[1], st)
        k = self.distance(q, p).const()
        at = lambda i: Ref(self.shift(p, K(i), st).loc)
      for i in range(k - 1):
        outs = self.apply_lambda(fn, [at(i), at(i + 1)], st)
        if len(outs) != 1:
          raise Unsupported('order')
        r, st = outs[0]
        if r is True:
          return [(self.shift(p, K(i), st), st)]
        if r is not False:
          raise Unsupported('adjacent elements')
      return [(self.shift(p, K(k), st), st)]
    if sh == 'NonFirstComma':
      at = self.target(args[0], st)
      v = self.load(Ref(at), st)
      st.heap[at] = False
      return [(Const('') if v in (True, K(1)) else Const(', ') if n['a'][1]['k'] == 'DfltArg' else self.load(args[1], st), st)]
    if sh == 'StrCat':
      return [(Const(('text', tuple(x for a in args for x in self.text(a, st)))), st)]
    if sh == 'StrAppend':
      p = self.load(args[0], st)
      old = self.load(Ref(p.loc), st)
      self.store(p.loc, Const(('text', self.text(old, st) + tuple(x for a in args[1:] for x in self.text(a, st)))), st)
      return [(Top('void'), st)]
    if sh in ('operator<<', 'str', 'operator+=', 'append', 'push_back'):
      both = ([obj] if obj is not None else []) + list(args)
      s = both[0]
      loc = s.loc if isinstance(s, Obj) else self.target(s, st) if isinstance(s, Ref) else None
      if loc is not None and loc + ('text',) in st.heap:
        if sh == 'str':
          return [(st.heap[loc + ('text',)], st)]
        more = self.text(both[1], st)
        v = self.load(both[1], st)
        kid = T.strip(n['a'][-1]) if n.get('a') else {}
        if kid.get('t') in ('char', 'const char') and isinstance(v, Aff) and v.const() is not None:
          more = (chr(int(v.const())),)
        st.heap[loc + ('text',)] = Const(('text', st.heap[loc + ('text',)].v[1] + more))
        return [(Ref(loc), st)]
      if sh in ('operator+=', 'append') and loc is not None and len(both) == 2 and 'string' in name:
        self.store(loc, Const(('text', self.text(s, st) + self.text(both[1], st))), st)
        return [(Ref(loc), st)]
    if name.startswith('std::basic_string') and sh.startswith('operator basic_string_view'):
      return [(self.load(obj, st), st)]
    return super().model(name, n, obj, args, st)

  def span_begin(self, v, st):
    loc = v.loc
    p = st.heap.get(loc + ('ptr',))
    if not isinstance(p, Ptr):
      raise Unsupported('span')
    return p

  def less(self, a, b, st):
    d = self.load(b, st).add(self.load(a, st), -1)
    lo, hi = absint.rng(d, st)
    if lo > 0:
      return True
    if hi <= 0:
      return False
    raise Unsupported('order of two keys')

  def at(self, p, st):
    if not isinstance(p, Ptr) or p.loc is None:
      raise Unsupported('position')
    k = self.distance(p, self.BEGIN)
    if not isinstance(k, Aff) or k.const() is None:
      raise Unsupported('position')
    return k.const()


def case(t):
  bad = []
  try:
    judge(t, bad)
  except Fault as e:
    bad.append('%s: %s' % (' '.join(str(x) for x in t[1:]), e))
  except Unsupported:
    if not bad:
      raise
  return [t[0] + ': ' + x for x in dict.fromkeys(bad)]


def returns(it, f, args, st):
  outs = list(it.call_fn(f, None, args, st))
  if not outs:
    raise Fault('the call does not return')
  return outs


def judge(t, bad):
  fn, a = t[0], t[1:]
  what = ' '.join(str(x) for x in a)
  it = I(F)
  st = absint.State()
  if fn in ('l_search', 'l_default'):
    n, k = a
    it.N, it.T = n, k
    p = Ptr(('xs', idx(0)))
    it.BEGIN = p
    val = Ref(('val',))
    if fn == 'l_default':
      st.iv['V'] = (-100, 100)
      st.heap[('val',)] = Aff({'V': 1})
      for i in range(n):
        st.iv['w%d' % i] = (0, 100)
        w = Aff({'w%d' % i: 1})
        st.heap[('xs', idx(i))] = Aff({'V': 1}, -1).add(w, -1) if i < k else Aff({'V': 1}).add(w)
      val = Aff({'V': 1})
    else:
      st.heap[('val', 'id')] = Top('int')
    args = [p, it.shift(p, K(n), st), val]
    for v, s in returns(it, FN[fn], args, st):
      got = it.at(it.load(v, s), s)
      bad.extend('%s: %s at line %s' % (what, e[0], e[1]) for e in s.log if e[0] in E05.EVENTS)
      if got != k:
        bad.append('%s: position %d instead of %d' % (what, got, k))
  elif fn.startswith('s_'):
    for v, s in returns(it, FN[fn], [K(a[0])], st):
      if it.load(v, s) != Const(('chosen', a[0])):
        bad.append('%s: the callback is called for %s' % (what, it.load(v, s)))
  elif fn.startswith('m_'):
    keys = []
    for k in a[0]:
      st.iv['k%d' % k] = (100 * k, 100 * k + 50)
      keys.append(Aff({'k%d' % k: 1}))
    it.new_map(st, ('map',), [(x, K(7)) for x in keys])
    for v, s in returns(it, FN[fn], [Ref(('map',))], st):
      els = it.elements(v, s)
      got = None if els is None else [repr(it.load(Ref(l), s)) for l in els]
      if got != ['k%d' % k for k in sorted(a[0])]:
        bad.append('%s: keys %s' % (what, got))
  else:
    sizes, part = a
    n = len(sizes) + 1 if sizes is not None else 0
    p = Ptr(('pts', idx(0)))
    x = Aff({'S': 1})
    st.iv['S'] = (0, 10)
    size = lambda k: K(k) if fn == 'r_values' else Aff({'z%d' % k: 1})
    for i in range(n):
      st.heap[('pts', idx(i))] = x
      if i < n - 1:
        st.iv['z%d' % sizes[i]] = (100 * sizes[i], 100 * sizes[i] + 50)
        x = x.add(size(sizes[i]))
    for i in (-1, n, n + 1):  # outside the span
      st.iv['out%d' % (i + 1)] = (-10**6, 10**6)
      st.heap[('pts', idx(i))] = Aff({'out%d' % (i + 1): 1})
    sp = st.fresh('span')
    it.new_span(st, sp, p, K(n))
    z = [repr(size(k)) for k in sizes or ()]
    if not z:
      want = '[]'
    elif len(set(z)) == 1:
      want = z[0]
    else:
      want = '[%s]' % ', '.join(z if len(z) <= 2 * part else z[:part] + ['...'] + z[len(z) - part:])
    for v, s in returns(it, FN[fn], [Obj(sp), K(part)], st):
      bad.extend('%s: %s at line %s' % (what, e[0], e[1]) for e in s.log if e[0] in E05.EVENTS)
      got = ''.join(it.text(v, s))
      if got != want:
        bad.append('%s: %s instead of %s' % (what, got, want))


NAMES = ('r_values', 'l_search', 'l_default', 's_32', 's_64', 's_n32', 's_n64', 'm_flat', 'm_unordered', 'r_sizes')


def cases(thorough):
  for n in range(0, 70 if thorough else 36):
    for k in range(n + 1):
      yield ('l_search', n, k)
      if n < 12 or k % 5 == 0 or thorough:
        yield ('l_default', n, k)
  for f in ('s_32', 's_64', 's_n32', 's_n64'):
    for i in range(int(f[-2:])):
      yield (f, i)
  for n in range(5):
    for p in itertools.permutations(range(n)):
      yield ('m_flat', p)
      yield ('m_unordered', p)
  for part in range(4):
    yield ('r_sizes', None, part)
    for n in range(9):
      for z in itertools.product((0, 1), repeat=n):
        if n < 6 or hash(z) % (1 if thorough else 9) == 0 or sum(z) < 2:
          yield ('r_sizes', tuple(z), part)
      if n > 2:
        yield ('r_sizes', tuple(range(n)), part)
    for n in range(1, 6 if thorough else 5):
      for z in itertools.product(range(4), repeat=n):
        yield ('r_values', z, part)


def setup():
  global F
  F = facts.load(facts.Scope(inst=['arolla/util/', 'arolla/jagged_shape/', '@tu/'], extra=[os.path.join(facts.VERIF, 'tu', 'helpers.cc')]))
  FN.clear()
  for x in F.functions:
    if x['n'] == 'witness::r_sizes':
      FN['r_values'] = x
    if x['n'].startswith('witness::') and x['kind'] == 'plain':
      FN[T.short(x['n'])] = x


SITES = {'l': 'exp_lower_bound', 's': 'switch_index_32', 'm': 'SortedMapKeys', 'r': 'CompactSplitPointsAsSizesRepr'}


def site(f):
  for x in F.functions + F.insts:
    if T.short(x['n'].split('<')[0]) == SITES[f[0]] and x['file'].startswith('arolla/'):
      return '%s:%d' % (x['file'], x['l'])
  return 'arolla/util/algorithms.h'


def main(c):
  setup()
  parcases.check(c, case, list(cases(os.environ.get('VERIF_TIER') == 'thorough')), NAMES, FN, {f: site(f) for f in NAMES if f in FN})


if __name__ == '__main__':
  report.main('U06', RULE, main)
