"""U08: the least recently used cache keeps, replaces and evicts exactly what it documents."""
import itertools
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import absint
from absint import Aff, Ptr, Ref, Obj, Const, Top, Unsupported
from containers import K, idx
import E05
from E05 import Fault
import facts
import parcases
import report
import tree as T

RULE = ('Abstract interpretation of util/lru_cache.h over the histories of operations up to the bound, with lists and hash sets modelled as containers of nodes (their hash and equality functors are interpreted): every lookup and put returns what the definition of the cache '
        'gives, no list node is used after its removal, and the index holds exactly the entries.')
F = None
FN = {}


def targs(fn):
  """Top-level template arguments of the class a member name belongs to."""
  i = fn.find('<')
  out, depth, cur = [], 0, ''
  for ch in fn[i + 1:]:
    if ch == '<':
      depth += 1
    elif ch == '>':
      if not depth:
        out.append(cur.strip())
        return out
      depth -= 1
    if ch == ',' and not depth:
      out.append(cur.strip())
      cur = ''
    else:
      cur += ch
  return out


class I(E05.I):
  DEPTH = 60

  def u8_kind(self, n, name):
    c = n.get('cls') or ''
    c = c if c else name
    if c.startswith('std::list'):
      return 'list'
    if 'container_internal::raw_hash_set' in c and 'iterator' not in c.rsplit('::', 1)[-1] or c.startswith('absl::flat_hash_set'):
      return 'set'
    return None

  def u8_nodes(self, loc, st):
    v = st.heap.get(loc + ('$nodes',))
    return v.v[1] if v is not None else ()

  def u8_put(self, loc, nodes, st):
    st.heap[loc + ('$nodes',)] = Const(('nodes', tuple(nodes)))

  def it_of(self, v, st, tag):
    v = self.load(v, st)
    if isinstance(v, Const) and isinstance(v.v, tuple) and v.v[0] == tag:
      return v.v
    raise Unsupported('iterator %r' % (v,))

  def u8_make(self, n, args, st):
    """A new node constructed from arguments. -> [(loc, state)]"""
    elem = targs(n['fn'])[0]
    loc = st.fresh('node')
    if len(args) == 1:
      v = self.load(args[0], st)
      if isinstance(v, Obj) and (v.n or {}).get('cls', elem) == elem if hasattr(v, 'n') else isinstance(v, Obj):
        self.copy_obj(v.loc, loc, st)
        return [(loc, st)]
    short = elem.rsplit('::', 1)[-1]
    ctors = [x for x in F.insts + F.functions if x['n'] in (elem + '::' + short,) and x.get('body') is not None and len(x['p']) == len(args)]
    if len(ctors) != 1:
      raise Unsupported('%d constructors of %s with %d arguments' % (len(ctors), short, len(args)))
    return [(loc, s) for _, s in self.call_fn(ctors[0], loc, list(args), st)]

  def u8_kill(self, node, st):
    st.dead.add(node)

  def construct0(self, n, args, st):
    cls = n.get('cls') or ''
    if cls.startswith('std::_List_') and len(args) == 1:
      return [(self.load(args[0], st), st)]
    if cls.startswith('std::list') and not args:
      return [(Obj(st.fresh('list'), n), st)]
    if 'raw_hash_set' in cls and 'iterator' in cls and len(args) == 1:
      return [(self.load(args[0], st), st)]
    return super().construct0(n, args, st)

  def record_of(self, n):
    r = super().record_of(n)
    if r is None and n.get('cls'):
      out, depth = '', 0
      for ch in n['cls']:
        depth += ch == '<'
        if not depth:
          out += ch
        depth -= ch == '>'
      rs = F.records.get(out, [])
      r = rs[0] if len(rs) == 1 else None
    return r

  def functor(self, n, i, args, st):
    cls = targs(n['fn'])[i]
    elem = targs(targs(n['fn'])[0])[0]
    short = elem.rsplit('::', 1)[-1]
    of_elem = [isinstance(a, Ref) and a.loc[0].startswith('slot#') for a in args]
    cands = []
    for x in F.insts + F.functions:
      if x['n'] == cls + '::operator()' and x['kind'] != 'pattern' and len(x['p']) == len(args) and x.get('body') is not None:
        if all((short in p['ct']) == e for p, e in zip(x['p'], of_elem)):
          cands.append(x)
    if len(cands) != 1:
      raise Unsupported('%d functors %s' % (len(cands), cls))
    outs = self.call_fn(cands[0], ('functor', i), list(args), st)
    if len(outs) != 1:
      raise Unsupported('functor')
    return self.load(outs[0][0], outs[0][1])

  def hash_of(self, n, x, st):
    v = self.functor(n, 1, [x], st)
    if not isinstance(v, Aff) or v.const() is None:
      raise Unsupported('hash %r' % (v,))
    return v.const()

  def u8_search(self, n, loc, key, st):
    h = self.hash_of(n, key, st)
    for s in self.u8_nodes(loc, st):
      if self.hash_of(n, Ref(s), st) == h:
        r = self.functor(n, 2, [Ref(s), key], st)
        if r is True:
          return s
        if r is not False:
          raise Unsupported('equality %r' % (r,))
    return None

  def model(self, name, n, obj, args, st):
    sh = T.short(name.split('<')[0]) if name.startswith('std::get<') else T.short(name)
    void = [(Top('void'), st)]
    if name == 'witness::Hash::operator()':
      return [(K(self.load(Ref(self.target(args[0], st) + ('id',)), st).const() // 2), st)]  # keys collide in pairs
    if name == 'witness::Eq::operator()':
      a, b = [self.load(Ref(self.target(x, st) + ('id',)), st) for x in args]
      return [(a.add(b, -1).const() == 0, st)]
    if name in ('witness::Value::operator=', 'witness::Key::operator=') or sh == 'operator=' and name.endswith('Entry::operator='):
      both = ([obj] if obj is not None else []) + list(args)
      dst, src = self.target(both[0], st), both[1].loc
      if dst != src:
        v = self.load(both[1], st)
        for q in [q for q in st.heap if q[:len(dst)] == dst]:
          del st.heap[q]
        self.copy_obj(v.loc if isinstance(v, Obj) else src, dst, st)
        if T.is_move(n['a'][-1]):
          self.moved_from(src, st)
      return [(Ref(dst), st)]
    # iterators
    if n.get('k') in ('OCall', 'Call', 'MCall'):
      both = ([obj] if obj is not None else []) + list(args)
      vals = [self.load(x, st) for x in both]
      if vals and isinstance(vals[0], Const) and isinstance(vals[0].v, tuple) and vals[0].v and vals[0].v[0] in ('lit', 'hit'):
        tag, loc, at = vals[0].v
        if sh in ('operator->', 'operator*'):
          if at is None or at not in self.u8_nodes(loc, st):
            raise Fault('an iterator to nothing or to a removed element is used at line %s' % n['l'])
          return [(Ptr(at) if sh == 'operator->' else Ref(at), st)]
        if sh in ('operator==', 'operator!=') and len(vals) == 2 and isinstance(vals[1], Const):
          return [((vals[0] == vals[1]) == (sh == 'operator=='), st)]
        if sh in ('operator++', 'operator--') and tag == 'lit':
          o = list(self.u8_nodes(loc, st)) + [None]
          i = o.index(at) + (1 if sh == 'operator++' else -1)
          if not 0 <= i < len(o):
            raise Fault('an iterator leaves the list at line %s' % n['l'])
          new = Const((tag, loc, o[i]))
          self.store(self.target(both[0], st), new, st)
          return [(new if len(both) == 1 else vals[0], st)]
        if sh in ('prev', 'next') and tag == 'lit':
          o = list(self.u8_nodes(loc, st)) + [None]
          i = o.index(at) + (1 if sh == 'next' else -1)
          if not 0 <= i < len(o):
            raise Fault('an iterator leaves the list at line %s' % n['l'])
          return [(Const((tag, loc, o[i])), st)]
        if sh == 'operator=' and len(both) == 2:
          self.store(self.target(both[0], st), vals[1], st)
          return [(both[0], st)]
    k = self.u8_kind(n, name)
    if k and obj is not None:
      loc = obj.loc if isinstance(obj, (Ref, Obj)) else self.load(obj, st).loc
      return getattr(self, 'u8_' + k)(sh, n, loc, args, st)
    if sh == 'prev' or sh == 'next':
      raise Unsupported(name)
    return super().model(name, n, obj, args, st)

  def u8_list(self, sh, n, loc, args, st):
    o = list(self.u8_nodes(loc, st))
    void = [(Top('void'), st)]
    if sh in ('size', 'empty'):
      return [(K(len(o)) if sh == 'size' else not o, st)]
    if sh in ('begin', 'cbegin'):
      return [(Const(('lit', loc, o[0] if o else None)), st)]
    if sh in ('end', 'cend'):
      return [(Const(('lit', loc, None)), st)]
    if sh in ('front', 'back', 'pop_front', 'pop_back'):
      if not o:
        raise Fault('%s of an empty list at line %s' % (sh, n['l']))
      i = 0 if sh.endswith('front') else -1
      if not sh.startswith('pop'):
        return [(Ref(o[i]), st)]
      self.u8_kill(o.pop(i), st)
      self.u8_put(loc, o, st)
      return void
    if sh in ('emplace_front', 'emplace_back', 'push_front', 'push_back', 'emplace', 'insert'):
      p = None
      if sh in ('emplace', 'insert'):
        p, args = self.it_of(args[0], st, 'lit')[2], args[1:]
      out = []
      for node, s in self.u8_make(n, args, st):
        o2 = list(self.u8_nodes(loc, s))
        i = 0 if sh.endswith('front') else len(o2) if sh.endswith('back') or p is None else o2.index(p)
        o2.insert(i, node)
        self.u8_put(loc, o2, s)
        out.append((Const(('lit', loc, node)) if sh in ('emplace', 'insert') else Ref(node), s))
      return out
    if sh == 'erase' and len(args) == 1:
      at = self.it_of(args[0], st, 'lit')[2]
      if at not in o:
        raise Fault('an element that is not in the list is erased at line %s' % n['l'])
      i = o.index(at)
      self.u8_kill(o.pop(i), st)
      self.u8_put(loc, o, st)
      return [(Const(('lit', loc, o[i] if i < len(o) else None)), st)]
    if sh == 'clear':
      for x in o:
        self.u8_kill(x, st)
      self.u8_put(loc, (), st)
      return void
    if sh == 'splice' and len(args) == 3:
      p = self.it_of(args[0], st, 'lit')[2]
      src = self.target(args[1], st)
      at = self.it_of(args[2], st, 'lit')[2]
      o2 = list(self.u8_nodes(src, st))
      if at not in o2:
        raise Fault('an element that is not in the list is moved at line %s' % n['l'])
      if p == at:
        return void
      o2.remove(at)
      self.u8_put(src, o2, st)
      o = list(self.u8_nodes(loc, st))
      if p is not None and p not in o:
        raise Fault('an element is moved before one that is not in the list at line %s' % n['l'])
      o.insert(o.index(p) if p is not None else len(o), at)
      self.u8_put(loc, o, st)
      return void
    raise Unsupported('list %s' % sh)

  def u8_set(self, sh, n, loc, args, st):
    o = list(self.u8_nodes(loc, st))
    void = [(Top('void'), st)]
    if sh in ('size', 'empty'):
      return [(K(len(o)) if sh == 'size' else not o, st)]
    if sh == 'reserve':
      for s in o:
        self.hash_of(n, Ref(s), st)
      return void
    if sh in ('begin', 'end', 'cbegin', 'cend'):
      return [(Const(('hit', loc, o[0] if o and sh.endswith('begin') else None)), st)]
    if sh in ('find', 'contains', 'count'):
      s = self.u8_search(n, loc, self.as_ref(args[0], st), st)
      return [(Const(('hit', loc, s)) if sh == 'find' else s is not None if sh == 'contains' else K(int(s is not None)), st)]
    if sh in ('emplace', 'insert'):
      elem = targs(targs(n['fn'])[0])[0]
      new = st.fresh('slot')
      v = self.load(args[0], st)
      if len(args) == 1 and isinstance(v, Obj):
        self.copy_obj(v.loc, new, st)
      elif len(args) == 1 and isinstance(v, Const):
        rec = [r for nm, rs in F.records.items() if nm.rsplit('::', 1)[-1] == elem.rsplit('::', 1)[-1] for r in rs]
        if len(rec) != 1 or len(rec[0]['fields']) != 1:
          raise Unsupported('set %s' % sh)
        st.heap[new + (rec[0]['fields'][0]['n'],)] = v
      else:
        raise Unsupported('set %s of %r' % (sh, v))
      s = self.u8_search(n, loc, Ref(new), st)
      for x in o:                                # the table may grow
        self.hash_of(n, Ref(x), st)
      if s is None:
        self.u8_put(loc, o + [new], st)
      r = st.fresh('pair')
      st.heap[r + ('first',)] = Const(('hit', loc, s or new))
      st.heap[r + ('second',)] = s is None
      return [(Obj(r), st)]
    if sh == 'erase' and len(args) == 1:
      v = self.load(args[0], st)
      if isinstance(v, Const) and isinstance(v.v, tuple) and v.v[0] == 'hit':
        if v.v[2] not in o:
          raise Fault('nothing is erased at line %s' % n['l'])
        self.hash_of(n, Ref(v.v[2]), st)
        s = v.v[2]
      else:
        s = self.u8_search(n, loc, self.as_ref(args[0], st), st)
      if s is not None:
        o.remove(s)
        self.u8_put(loc, o, st)
      return [(K(int(s is not None)), st)]
    if sh == 'clear':
      self.u8_put(loc, (), st)
      return void
    raise Unsupported('set %s' % sh)

  def as_ref(self, v, st):
    if isinstance(v, Ref):
      return Ref(self.target(v, st))
    if isinstance(v, Obj):
      return Ref(v.loc)
    raise Unsupported('key %r' % (v,))


class Model:
  """The definition."""

  def __init__(self, capacity):
    self.capacity = capacity
    self.items = []                              # most recently used first

  def copy(self):
    m = Model(self.capacity)
    m.items = list(self.items)
    return m

  def lookup(self, k):
    for x in self.items:
      if x[0] == k:
        self.items.remove(x)
        self.items.insert(0, x)
        return x[1]
    return None

  def put(self, k, v, w):
    self.items = [(k, v, w)] + [x for x in self.items if x[0] != k]
    while len(self.items) > 1 and sum(x[2] for x in self.items) > self.capacity:
      self.items.pop()
    return v

  def clear(self):
    self.items = []


class Run:

  def __init__(self, capacity):
    self.it = I(F)
    self.st = absint.State()
    self.n = 0
    self.this = ('cache',)
    ctor = [x for x in F.insts if x['n'].startswith('arolla::LruCache<') and x['n'].endswith('>::LruCache') and len(x['p']) == 1 and x.get('body') is not None and 'LruCache' not in x['p'][0]['ct']]
    if len(ctor) != 1:
      raise Unsupported('constructor of the cache')
    self.st = self.one(self.it.call_fn(ctor[0], self.this, [K(capacity)], self.st))[1]
    for k in range(9):
      self.st.heap[('key', idx(k), 'id')] = K(k)

  def one(self, outs):
    if len(outs) != 1:
      raise Unsupported('%d outcomes' % len(outs))
    return outs[0]

  def copy(self):
    r = Run.__new__(Run)
    r.it, r.st, r.n, r.this = self.it, self.st.clone(), self.n, self.this
    return r

  def call(self, f, *args):
    v, self.st = self.one(self.it.call_fn(FN[f], None, [Ref(self.this)] + list(args), self.st))
    return v

  def got(self, v):
    p = self.it.load(v, self.st)
    if isinstance(p, Ptr) and p.loc is not None:
      x = self.it.load(Ref(p.loc + ('id',)), self.st)
      if isinstance(x, Aff) and x.const() is not None:
        return x.const()
    if isinstance(p, Ptr) and p.loc is None or isinstance(p, Const) and p.v in ('null', None):
      return None
    raise Unsupported('value %r' % (p,))

  def lookup(self, k):
    return self.got(self.call('c_lookup', Ref(('key', idx(k)))))

  def put(self, k, v, w):
    loc = self.st.fresh('value')
    self.st.heap[loc + ('id',)] = K(v)
    args = [Ref(('key', idx(k))), Obj(loc)]
    return self.got(self.call('c_put1', *args) if w is None else self.call('c_put', *args, K(w)))

  def clear(self):
    self.call('c_clear')


def case(t):
  bad = []
  try:
    judge(t, bad)
  except Fault as e:
    bad.append('%s: %s' % (t[1:], e))
  except Unsupported:
    if not bad:
      raise
  return [t[0] + ': ' + x for x in dict.fromkeys(bad)]


def judge(t, bad):
  fn, capacity, ops = t
  r, m = Run(capacity), Model(capacity)
  what = 'capacity %d %s' % (capacity, ' '.join(''.join(map(str, o)) for o in ops))

  def faults(r):
    bad.extend(sorted({'%s: %s at line %s' % (what, e[0], e[1]) for e in r.st.log if e[0] in E05.EVENTS}))

  def step(r, m, o, v):
    if o[0] == 'L':
      a, b = r.lookup(o[1]), m.lookup(o[1])
    elif o[0] == 'P':
      w = o[2] if len(o) > 2 else None
      a, b = r.put(o[1], v, w), m.put(o[1], v, 1 if w is None else w)
    else:
      a = b = r.clear()
      m.clear()
    if a != b:
      bad.append('%s: %s gives %s instead of %s' % (what, ''.join(map(str, o)), a, b))
  for i, o in enumerate(ops):
    step(r, m, o, 100 + i)
    if bad:
      return
  # What is left, and in which order it goes.
  for k in range(capacity + 1):
    r2, m2 = r.copy(), m.copy()
    for j in range(k):
      step(r2, m2, ('P', 5 + j), 200 + j)
    for x in range(4):
      r3, m3 = r2.copy(), m2.copy()
      step(r3, m3, ('L', x), 0)
      faults(r3)
      if bad:
        return


NAMES = ('c_lookup', 'c_put', 'c_put1', 'c_clear')


def canonical(ops):
  seen = -1
  for o in ops:
    if len(o) > 1:
      if o[1] > seen + 1:
        return False
      seen = max(seen, o[1])
  return True


def cases(thorough):
  alpha = [('P', k) for k in range(4)] + [('P', k, 2) for k in range(3)] + [('L', k) for k in range(4)] + [('C',)]
  which = {'L': 'c_lookup', 'C': 'c_clear'}
  for n in range(1, 6 if thorough else 5):
    for ops in itertools.product(alpha, repeat=n):
      if canonical(ops):
        for cap in (1, 2, 3) if n < 4 or thorough else (2, 3):
          yield (which.get(ops[-1][0]) or ('c_put' if len(ops[-1]) > 2 else 'c_put1'), cap, ops)
  for p in itertools.permutations(range(3)):
    for w in itertools.product((1, 3, 7), repeat=3):
      yield ('c_put', 3, tuple(('P', k, 1) for k in range(3)) + tuple(('P', k, w[i]) for i, k in enumerate(p)))


def setup():
  global F
  F = facts.load(facts.Scope(inst=['arolla/util/lru_cache', '@tu/'], extra=[os.path.join(facts.VERIF, 'tu', 'cache.cc')]))
  FN.clear()
  for x in F.functions:
    if x['n'].startswith('witness::') and x['kind'] == 'plain':
      FN[T.short(x['n'])] = x


SITES = {'c_lookup': 'LookupOrNull', 'c_put': 'Put', 'c_put1': 'Put', 'c_clear': 'Clear'}


def site(f):
  for x in F.insts:
    if T.short(x['n']) == SITES[f] and x['file'].startswith('arolla/util/lru_cache'):
      return '%s:%d' % (x['file'], x['l'])
  return 'arolla/util/lru_cache.h'


def main(c):
  setup()
  parcases.check(c, case, list(cases(os.environ.get('VERIF_TIER') == 'thorough')), NAMES, FN, {f: site(f) for f in NAMES if f in FN})


if __name__ == '__main__':
  report.main('U08', RULE, main)
