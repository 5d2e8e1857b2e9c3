"""Order-taint analysis of Python generators.

Abstract values are subsets of {'S', 'O', 'E'}:
  S  an unordered collection (set / frozenset): its iteration order is arbitrary
  O  a value whose order or content depends on an arbitrary order (or on
     identity hashes, time, the environment)
  E  an ordered collection whose elements are sets
Every function is evaluated per tuple of argument kinds; instance attributes
are joined per class over all assignments; the whole is iterated to a fixpoint.
"""
import ast

import pyan

CLEAN = frozenset()
S, O, E = frozenset('S'), frozenset('O'), frozenset('E')
SET_METHODS = {'union', 'difference', 'intersection', 'symmetric_difference', 'copy', '__or__', '__and__', '__sub__'}
SET_MUT = {'add', 'update', 'discard', 'remove', 'clear', 'difference_update', 'intersection_update', 'symmetric_difference_update'}
SEQ_MUT = {'append', 'extend', 'insert', 'appendleft', 'extendleft'}
INSENSITIVE = {'len', 'any', 'all', 'min', 'max', 'bool', 'isinstance', 'issubclass', 'type', 'callable', 'hasattr'}
NONDET = {'time', 'random', 'uuid', 'secrets', 'tempfile', 'socket', 'getpass'}
NONDET_OS = {'listdir', 'scandir', 'environ', 'getenv', 'getpid', 'urandom', 'walk', 'times', 'getcwd'}


class Fn:
  """A function definition with the class and enclosing functions it lives in."""

  def __init__(self, mod, node, cls=None, outer=None):
    self.mod, self.node, self.cls, self.outer = mod, node, cls, outer

  @property
  def qual(self):
    p = (self.outer.qual + '.' if self.outer else self.cls.name + '.' if self.cls else '')
    return p + getattr(self.node, 'name', '<lambda>')


class Analysis:

  def __init__(self, prog):
    self.prog = prog
    self.attrs = {}     # (class name, attr) -> kind
    self.memo = {}
    self.active = set()
    self.viol = {}
    self.stats = {}
    self.changed = False
    self.fns = {}
    self.method_index = {}
    self.prop_index = {}
    self.mut_memo = {}
    for c in prog.classes():
      for n, m in c.methods.items():
        (self.prop_index if c.is_property(m) else self.method_index).setdefault(n, []).append((c, m))

  # -- reporting ----------------------------------------------------------
  def flag(self, fn, node, what):
    if fn.in_raise:
      return
    key = (fn.f.mod.rel, fn.f.qual, what)
    self.viol.setdefault(key, '%s:%d' % (fn.f.mod.rel, node.lineno))

  def stat(self, name, key):
    self.stats.setdefault(name, set()).add(key)

  # -- entities -----------------------------------------------------------
  def attr_kind(self, cls, name):
    ks = CLEAN
    for (c, n), k in self.attrs.items():
      if n == name and (cls is None or c in [x.name for x in cls.mro()] or any(c == x.name and cls in x.mro() for x in self.prog.classes())):
        ks |= k
    return ks

  def set_attr(self, cls, name, k):
    cur = self.attrs.get((cls, name), CLEAN)
    if not k <= cur:
      self.attrs[(cls, name)] = cur | k
      self.changed = True

  def ann_kind(self, ann):
    if ann is None:
      return CLEAN
    if isinstance(ann, ast.Constant) and isinstance(ann.value, str):
      try:
        ann = ast.parse(ann.value, mode='eval').body
      except SyntaxError:
        return CLEAN
    if isinstance(ann, ast.Subscript):
      base = ast.unparse(ann.value).split('.')[-1]
      if base in ('set', 'frozenset', 'Set', 'FrozenSet', 'AbstractSet', 'MutableSet'):
        return S
      if base == 'Optional':
        return self.ann_kind(ann.slice)
      if base in ('list', 'List', 'Sequence', 'Iterable', 'tuple', 'Tuple') and self.ann_kind(ann.slice) & S:
        return E
      return CLEAN
    if isinstance(ann, ast.BinOp):
      return self.ann_kind(ann.left) | self.ann_kind(ann.right)
    if isinstance(ann, (ast.Name, ast.Attribute)) and ast.unparse(ann).split('.')[-1] in ('set', 'frozenset', 'Set', 'FrozenSet'):
      return S
    return CLEAN

  def params(self, node):
    a = node.args
    return [x.arg for x in a.posonlyargs + a.args], [x.arg for x in a.kwonlyargs], a.vararg and a.vararg.arg, a.kwarg and a.kwarg.arg

  def mutates(self, node, pname, depth=0):
    """May the function change the order-relevant content of its parameter?"""
    key = (id(node), pname)
    if key in self.mut_memo:
      return self.mut_memo[key]
    self.mut_memo[key] = False
    r = False
    for n in ast.walk(node):
      if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in SEQ_MUT | {'update', 'setdefault', 'add', 'write'} and base_name(n.func.value) == pname:
        r = True
      elif isinstance(n, (ast.Assign, ast.AugAssign)):
        for t in (n.targets if isinstance(n, ast.Assign) else [n.target]):
          if isinstance(t, ast.Subscript) and base_name(t) == pname:
            r = True
    self.mut_memo[key] = r
    return r

  # -- calls --------------------------------------------------------------
  def call_fn(self, f, kinds):
    """kinds: {param: kind}. Returns the kind of the result."""
    node = f.node
    pos, kwo, va, kw = self.params(node)
    env = {}
    for a in node.args.posonlyargs + node.args.args + node.args.kwonlyargs:
      env[a.arg] = kinds.get(a.arg, CLEAN) | self.ann_kind(a.annotation)
    for extra in (va, kw):
      if extra:
        env[extra] = kinds.get(extra, CLEAN)
    key = (id(node), tuple(sorted((k, tuple(sorted(v))) for k, v in env.items())))
    if key in self.active:
      return self.memo.get(key, CLEAN)
    if self.done.get(key):
      return self.memo[key]
    self.active.add(key)
    r = Eval(self, f, env).run()
    self.active.discard(key)
    self.done[key] = True
    if r != self.memo.get(key):
      self.memo[key] = r | self.memo.get(key, CLEAN)
      self.changed = True
    return self.memo[key]

  def bind(self, node, args, kwargs, skip_self):
    pos, kwo, va, kw = self.params(node)
    if skip_self:
      pos = pos[1:]
    kinds = {}
    for i, (star, k) in enumerate(args):
      if star:
        for p in pos[i:]:
          kinds[p] = kinds.get(p, CLEAN) | k
        if va:
          kinds[va] = kinds.get(va, CLEAN) | k
      elif i < len(pos):
        kinds[pos[i]] = k
      elif va:
        kinds[va] = kinds.get(va, CLEAN) | (E if k & S else k)
    for n, k in kwargs:
      if n is None:
        for p in pos + kwo:
          kinds.setdefault(p, k)
      elif n in pos or n in kwo:
        kinds[n] = k
      elif kw:
        kinds[kw] = kinds.get(kw, CLEAN) | (O if k & O else CLEAN)
    return kinds

  # -- driver -------------------------------------------------------------
  def all_fns(self):
    for m in self.prog.mods.values():
      for n in m.funcs.values():
        yield Fn(m, n)
      for c in m.classes.values():
        for n in c.methods.values():
          yield Fn(m, n, c)

  def run(self):
    fns = list(self.all_fns())
    for _ in range(12):
      self.changed = False
      self.done = {}
      self.viol.clear()
      self.stats.clear()
      for c in self.prog.classes():
        if c.dataclass() is not None:
          for n, a in c.fields:
            self.set_attr(c.name, n, self.ann_kind(a.annotation))
      for f in fns:
        if self.call_fn(f, {}) & O and f.node.name not in ('__hash__',):
          self.viol.setdefault((f.mod.rel, f.qual, 'the value it returns has arbitrary order'), '%s:%d' % (f.mod.rel, f.node.lineno))
      if not self.changed:
        break
    return self.viol


def base_name(e):
  while True:
    if isinstance(e, (ast.Attribute, ast.Subscript)):
      if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and e.value.id == 'self':
        return 'self.' + e.attr
      e = e.value
    elif isinstance(e, ast.Call):
      if not isinstance(e.func, ast.Attribute):
        return None
      e = e.func.value
    else:
      return e.id if isinstance(e, ast.Name) else None


def names_in(e):
  return {n.id for n in ast.walk(e) if isinstance(n, ast.Name)}


class Eval:

  def __init__(self, an, f, env):
    self.an, self.f, self.env = an, f, dict(env)
    self.prog, self.mod = an.prog, f.mod
    self.ret = CLEAN
    self.in_raise = 0
    self.loop = []      # stack of sets of loop-variable names of arbitrary-order loops
    self.nested = {}
    self.numeric = set()
    self.local_lambdas = {}

  def run(self):
    self.an.stat('functions', (self.mod.rel, self.f.qual))
    node = self.f.node
    if isinstance(node, ast.Lambda):
      return self.expr(node.body)
    self.block(node.body)
    if self.f.cls:
      for k, v in self.env.items():
        if k.startswith('self.'):
          self.an.set_attr(self.f.cls.name, k[5:], v)
    for n in self.nested.values():
      self.closure(n)
    r = self.ret | (self.an.ann_kind(node.returns) & S)
    return r

  def closure(self, node):
    """A nested function: analysed with the final bindings of its captures."""
    f = Fn(self.mod, node, self.f.cls, self.f)
    sub = Eval(self.an, f, dict(self.env))
    for a in node.args.posonlyargs + node.args.args + node.args.kwonlyargs:
      sub.env[a.arg] = self.an.ann_kind(a.annotation)
    sub.nested = dict(self.nested)
    sub.nested.pop(node.name, None)
    r = sub.run()
    if r & O:
      self.an.flag(sub, node, 'the list the generator function returns has arbitrary order')
    return r

  # -- statements ---------------------------------------------------------
  def block(self, body):
    for s in body:
      self.stmt(s)

  def join_env(self, a, b):
    return {k: a.get(k, CLEAN) | b.get(k, CLEAN) for k in set(a) | set(b)}

  def stmt(self, s):
    if isinstance(s, (ast.FunctionDef,)):
      self.nested[s.name] = s
    elif isinstance(s, ast.Return):
      if s.value is not None:
        k = self.expr(s.value)
        if self.loop and (names_in(s.value) & set().union(*self.loop)):
          k |= O
        self.ret |= k
    elif isinstance(s, ast.Expr):
      self.expr(s.value)
    elif isinstance(s, ast.Assign):
      k = self.expr(s.value)
      if isinstance(s.value, ast.Constant) and isinstance(s.value.value, (int, float)):
        self.numeric |= {t.id for t in s.targets if isinstance(t, ast.Name)}
      for t in s.targets:
        self.assign(t, k, s.value)
    elif isinstance(s, ast.AnnAssign):
      k = self.an.ann_kind(s.annotation)
      if s.value is not None:
        k = self.expr(s.value) | k
        if isinstance(s.value, ast.Constant) and isinstance(s.value.value, (int, float)) and isinstance(s.target, ast.Name):
          self.numeric.add(s.target.id)
        self.assign(s.target, k, s.value)
    elif isinstance(s, ast.AugAssign):
      k = self.expr(s.value)
      cur = self.expr(s.target)
      if isinstance(s.op, (ast.BitOr, ast.BitAnd, ast.Sub, ast.BitXor)) and (cur | k) & S:
        k = cur | k
      elif isinstance(s.target, ast.Name) and s.target.id in self.numeric:
        k = CLEAN
      else:
        k = (cur | k) - S | (O if (cur | k) & S else CLEAN)
        if self.loop:
          k |= O
      self.assign(s.target, k, None)
    elif isinstance(s, (ast.For, ast.AsyncFor)):
      self.for_stmt(s.target, s.iter, s.body, s.orelse)
    elif isinstance(s, ast.While):
      for _ in range(2):
        self.expr(s.test)
        before = dict(self.env)
        self.block(s.body)
        self.env = self.join_env(before, self.env)
      self.block(s.orelse)
    elif isinstance(s, ast.If):
      self.expr(s.test)
      before = dict(self.env)
      self.block(s.body)
      then, t_exit = self.env, exits(s.body)
      self.env = dict(before)
      self.block(s.orelse)
      if t_exit:
        pass
      elif exits(s.orelse):
        self.env = then
      else:
        self.env = self.join_env(then, self.env)
    elif isinstance(s, ast.With):
      for i in s.items:
        k = self.expr(i.context_expr)
        if i.optional_vars is not None:
          self.assign(i.optional_vars, k, None)
      self.block(s.body)
    elif isinstance(s, ast.Try):
      self.block(s.body)
      for h in s.handlers:
        self.block(h.body)
      self.block(s.orelse)
      self.block(s.finalbody)
    elif isinstance(s, (ast.Raise, ast.Assert)):
      self.in_raise += 1
      for c in ast.iter_child_nodes(s):
        self.expr(c)
      self.in_raise -= 1
    elif isinstance(s, ast.Delete):
      pass
    elif isinstance(s, ast.Match):
      self.expr(s.subject)
      for c in s.cases:
        self.block(c.body)

  def element(self, k):
    """Kind of one element of a collection of kind k."""
    return S if k & E else CLEAN

  def for_stmt(self, target, it, body, orelse):
    k = self.expr(it)
    arbitrary = bool(k & (S | O))
    self.an.stat('loops', (self.mod.rel, it.lineno, it.col_offset))
    if arbitrary:
      self.an.stat('loops over unordered collections', (self.mod.rel, it.lineno, it.col_offset))
    for _ in range(2):
      self.assign(target, self.element(k), None, loopvar=True)
      before = dict(self.env)
      if arbitrary:
        self.loop.append(names_in(target) | self.derived(body, names_in(target)))
      self.block(body)
      if arbitrary:
        self.loop.pop()
      self.env = self.join_env(before, self.env)
    self.block(orelse)

  def derived(self, body, seed):
    """Names assigned in the loop body from the loop variables."""
    out = set(seed)
    for _ in range(3):
      for s in body:
        for n in ast.walk(s):
          if isinstance(n, ast.Assign) and names_in(n.value) & out:
            for t in n.targets:
              if isinstance(t, (ast.Name, ast.Tuple)):
                out |= names_in(t)
          elif isinstance(n, ast.For) and names_in(n.iter) & out:
            out |= names_in(n.target)
    return out

  def assign(self, t, k, value, loopvar=False):
    if isinstance(t, ast.Name):
      if self.loop and not loopvar and value is not None and not (k & S) and self.escapes(t.id, value):
        k |= O
      self.env[t.id] = k
    elif isinstance(t, (ast.Tuple, ast.List)):
      for x in t.elts:
        self.assign(x, k if not k & E else S, None, loopvar)
    elif isinstance(t, ast.Starred):
      self.assign(t.value, k, None, loopvar)
    elif isinstance(t, ast.Attribute):
      b = base_name(t)
      if b and b.startswith('self.') and isinstance(t.value, ast.Name):
        if self.f.cls and self.f.node.name == '__init__':
          self.env[b] = k
        elif self.f.cls:
          self.an.set_attr(self.f.cls.name, t.attr, k)
      else:
        self.an.set_attr('*', t.attr, k)
    elif isinstance(t, ast.Subscript):
      b = base_name(t)
      if b:
        add = (O if k & (O | S) else CLEAN) | (O if self.loop else CLEAN)
        self.touch(b, add)

  def escapes(self, name, value):
    """Is an assignment in an arbitrary-order loop observable after the loop (last one wins)?"""
    inner = set().union(*self.loop)
    if not names_in(value) & inner:
      return False
    if isinstance(value, ast.Call) and isinstance(value.func, ast.Name) and value.func.id in ('min', 'max'):
      return False
    # a name that every iteration assigns before reading it is a temporary
    return self.used_outside(name) or self.carried(name)

  def carried(self, name):
    """Does a loop that assigns `name` read it before assigning it?"""
    for l in ast.walk(self.f.node):
      if not isinstance(l, ast.For):
        continue
      occ = []
      def visit(n):
        if isinstance(n, (ast.Assign, ast.AnnAssign, ast.AugAssign)):
          if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name) and n.target.id == name:
            occ.append('L')
          if n.value is not None:
            visit(n.value)
          for t in (n.targets if isinstance(n, ast.Assign) else [n.target]):
            visit(t)
          return
        if isinstance(n, ast.Name) and n.id == name:
          occ.append('L' if isinstance(n.ctx, ast.Load) else 'S')
        for c in ast.iter_child_nodes(n):
          visit(c)
      for b in l.body:
        visit(b)
      if 'S' in occ and occ[0] == 'L':
        return True
    return False

  def used_outside(self, name):
    loops = [n for n in ast.walk(self.f.node) if isinstance(n, ast.For) and any(isinstance(x, ast.Name) and x.id == name and isinstance(x.ctx, ast.Store) for b in n.body for x in ast.walk(b))]
    inside = set()
    for l in loops:
      for x in ast.walk(l):
        inside.add(id(x))
    return any(isinstance(x, ast.Name) and x.id == name and isinstance(x.ctx, ast.Load) and id(x) not in inside for x in ast.walk(self.f.node))

  def touch(self, name, k):
    if not k:
      return
    if name.startswith('self.'):
      if self.f.cls and self.f.node.name == '__init__':
        self.env[name] = self.env.get(name, CLEAN) | k
      elif self.f.cls:
        self.an.set_attr(self.f.cls.name, name[5:], k)
    else:
      self.env[name] = self.env.get(name, CLEAN) | k

  # -- expressions --------------------------------------------------------
  def text(self, e, k, how):
    if k & (S | O | E):
      self.an.flag(self, e, 'text is built (%s) from a value with arbitrary order: %s' % (how, ast.unparse(e)[:80]))

  def expr(self, e):
    if e is None:
      return CLEAN
    m = getattr(self, 'x_' + type(e).__name__, None)
    if m:
      return m(e)
    k = CLEAN
    for c in ast.iter_child_nodes(e):
      if isinstance(c, ast.expr):
        k |= self.expr(c)
    return k - S if not isinstance(e, ast.IfExp) else k

  def x_Constant(self, e):
    return CLEAN

  def x_Name(self, e):
    if e.id in self.env:
      return self.env[e.id]
    if e.id in self.mod.assigns:
      v = self.mod.assigns[e.id]
      if isinstance(v, (ast.Set, ast.SetComp)) or isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id in ('set', 'frozenset'):
        return S
    return CLEAN

  def x_Set(self, e):
    for x in e.elts:
      self.expr(x)
    return S

  def x_IfExp(self, e):
    self.expr(e.test)
    return self.expr(e.body) | self.expr(e.orelse)

  def x_BoolOp(self, e):
    k = CLEAN
    for v in e.values:
      k |= self.expr(v)
    return k

  def x_Compare(self, e):
    self.expr(e.left)
    for c in e.comparators:
      self.expr(c)
    return CLEAN

  def x_UnaryOp(self, e):
    k = self.expr(e.operand)
    return CLEAN if isinstance(e.op, ast.Not) else k

  def x_List(self, e):
    k = CLEAN
    for x in e.elts:
      kx = self.expr(x.value if isinstance(x, ast.Starred) else x)
      if isinstance(x, ast.Starred):
        k |= O if kx & (S | O) else CLEAN
      else:
        k |= (E if kx & S else CLEAN) | (kx & (O | E))
    return k

  x_Tuple = x_List

  def x_Dict(self, e):
    k = CLEAN
    for a, b in zip(e.keys, e.values):
      if a is None:
        kb = self.expr(b)
      else:
        self.expr(a)
        kb = self.expr(b)
      k |= (E if kb & S else CLEAN) | (kb & (O | E))
    # a dict holding sets passes them on by key: handled as clean container of sets
    return k - E

  def comp(self, e, elts):
    saved = dict(self.env)
    arb = False
    for g in e.generators:
      k = self.expr(g.iter)
      self.an.stat('loops', (self.mod.rel, g.iter.lineno, g.iter.col_offset))
      if k & (S | O):
        arb = True
        self.an.stat('loops over unordered collections', (self.mod.rel, g.iter.lineno, g.iter.col_offset))
      self.assign(g.target, self.element(k), None, loopvar=True)
      for c in g.ifs:
        self.expr(c)
    ks = CLEAN
    for x in elts:
      ks |= self.expr(x)
    self.env = saved
    return arb, ks

  def x_ListComp(self, e):
    arb, k = self.comp(e, [e.elt])
    return (O if arb or k & O else CLEAN) | (E if k & (S | E) else CLEAN)

  x_GeneratorExp = x_ListComp

  def x_SetComp(self, e):
    arb, k = self.comp(e, [e.elt])
    return S | (k & O)

  def x_DictComp(self, e):
    arb, k = self.comp(e, [e.key, e.value])
    return O if arb or k & O else CLEAN

  def x_JoinedStr(self, e):
    for v in e.values:
      if isinstance(v, ast.FormattedValue):
        self.text(v.value, self.expr(v.value), 'f-string')
    return CLEAN

  def x_BinOp(self, e):
    l, r = self.expr(e.left), self.expr(e.right)
    if isinstance(e.op, ast.Mod) and (isinstance(e.left, ast.Constant) and isinstance(e.left.value, str) or isinstance(e.left, ast.JoinedStr)):
      self.text(e.right, r, '%-formatting')
      return CLEAN
    if isinstance(e.op, (ast.BitOr, ast.BitAnd, ast.Sub, ast.BitXor)):
      return l | r
    return (l | r) - S   # sets do not support + and *: that part cannot happen

  def x_Subscript(self, e):
    k = self.expr(e.value)
    self.expr(e.slice)
    return (k & O) | (S if k & E else CLEAN)

  def x_Starred(self, e):
    return self.expr(e.value)

  def x_Lambda(self, e):
    return CLEAN

  def x_Yield(self, e):
    k = self.expr(e.value)
    self.ret |= (O if self.loop else CLEAN) | (k & O) | (E if k & S else CLEAN)
    return CLEAN

  def x_YieldFrom(self, e):
    k = self.expr(e.value)
    self.ret |= O if k & (S | O) or self.loop else k
    return CLEAN

  def x_NamedExpr(self, e):
    k = self.expr(e.value)
    self.assign(e.target, k, e.value)
    return k

  def x_Attribute(self, e):
    v = e.value
    if isinstance(v, ast.Name):
      full = self.mod.imports.get(v.id)
      if full == 'os' and e.attr in NONDET_OS:
        return O
      if full in NONDET and v.id not in self.env:
        return O
      if v.id == 'self' and self.f.cls:
        key = 'self.' + e.attr
        if key in self.env:
          return self.env[key]
        c, m = self.f.cls.find(e.attr)
        if m is not None and c.is_property(m):
          return self.an.call_fn(Fn(c.mod, m, c), {})
        return self.an.attr_kind(self.f.cls, e.attr)
    k = self.expr(v)
    # an attribute of an object of unknown class: join over the classes that have it
    out = k & O
    for c, m in self.an.prop_index.get(e.attr, []):
      out |= self.an.call_fn(Fn(c.mod, m, c), {})
    out |= self.an.attr_kind(None, e.attr)
    return out

  def key_injective(self, key):
    """Does equality of keys imply equality of the elements (for sets)?"""
    if key is None:
      return True
    if isinstance(key, ast.Name):
      if key.id in ('str', 'repr'):
        return True
      r = self.prog.resolve_func(self.mod, key)
      n = self.nested.get(key.id) or (r and r[1])
      if n is not None and len(n.body) >= 1 and isinstance(n.body[-1], ast.Return) and n.args.args:
        return self.inj_expr(n.body[-1].value, n.args.args[0].arg)
      return False
    if isinstance(key, ast.Lambda) and key.args.args:
      return self.inj_expr(key.body, key.args.args[0].arg)
    if isinstance(key, ast.Call) and ast.unparse(key.func).split('.')[-1] == 'attrgetter':
      return True
    return False

  def inj_expr(self, b, p):
    if isinstance(b, ast.Name):
      return b.id == p
    if isinstance(b, ast.Attribute):
      return self.inj_expr(b.value, p)
    if isinstance(b, ast.Tuple):
      return any(self.inj_expr(x, p) for x in b.elts)
    if isinstance(b, ast.Call) and isinstance(b.func, ast.Name) and b.func.id in ('str', 'repr', 'tuple') and len(b.args) == 1:
      return self.inj_expr(b.args[0], p)
    return False

  def x_Call(self, e):
    f = e.func
    args = [(isinstance(a, ast.Starred), self.expr(a.value if isinstance(a, ast.Starred) else a)) for a in e.args]
    kwargs = [(k.arg, self.expr(k.value)) for k in e.keywords]
    allk = frozenset().union(*([k for _, k in args] + [k for _, k in kwargs])) if args or kwargs else CLEAN
    self.an.stat('calls', (self.mod.rel, e.lineno, e.col_offset))
    kw = {k.arg: k.value for k in e.keywords}

    if isinstance(f, ast.Name) and f.id not in self.env:
      n = f.id
      if n in ('set', 'frozenset'):
        return S
      if n == 'sorted':
        a = args[0][1] if args else CLEAN
        self.an.stat('sorts', (self.mod.rel, e.lineno, e.col_offset))
        if a & (S | O) and not self.key_injective(kw.get('key')):
          return O
        return CLEAN
      if n in INSENSITIVE:
        if n in ('min', 'max') and 'key' in kw and allk & (S | O) and not self.key_injective(kw['key']):
          return O
        return CLEAN
      if n in ('list', 'tuple', 'enumerate', 'zip', 'map', 'filter', 'reversed', 'iter', 'dict', 'sum', 'next'):
        star = any(st for st, _ in args)
        r = (O if allk & (S | O) else CLEAN) | (E if allk & E and n in ('list', 'tuple', 'reversed', 'iter') else CLEAN)
        if n == 'map' and e.args and isinstance(e.args[0], ast.Attribute):
          pass
        return r
      if n in ('id', 'hash'):
        if self.f.node.name in ('__hash__', '__eq__') if not isinstance(self.f.node, ast.Lambda) else False:
          return CLEAN
        return O
      if n in ('str', 'repr', 'format'):
        for a in e.args:
          self.text(a, self.expr(a), n + '()')
        return CLEAN
      if n == 'print':
        for a in e.args:
          self.text(a, self.expr(a), 'print()')
        return CLEAN
      if n in ('getattr', 'setattr', 'open', 'super', 'range', 'ord', 'chr', 'int', 'float'):
        return CLEAN
      if n in self.nested:
        return self.closure(self.nested[n])
    if isinstance(f, ast.Attribute):
      recv_mod = isinstance(f.value, ast.Name) and f.value.id not in self.env and self.mod.imports.get(f.value.id)
      if recv_mod:
        if recv_mod in NONDET or recv_mod == 'os' and f.attr in NONDET_OS or recv_mod == 'glob' or recv_mod == 'datetime':
          return O
        if recv_mod in ('itertools', 'collections', 'functools', 'more_itertools'):
          return O if allk & (S | O) else allk
      if f.attr == 'render':
        self.an.stat('render sinks', (self.mod.rel, e.lineno))
        for kwd in e.keywords:
          self.text(kwd.value, self.expr(kwd.value), 'template argument %s' % kwd.arg)
        for a in e.args:
          self.text(a, self.expr(a.value if isinstance(a, ast.Starred) else a), 'template argument')
        return CLEAN
      if f.attr == 'join' and len(e.args) == 1 and not recv_mod:
        self.text(e.args[0], args[0][1], 'join')
        return CLEAN
      if f.attr == 'format' and not recv_mod:
        for a in list(e.args) + [k.value for k in e.keywords]:
          self.text(a, self.expr(a.value if isinstance(a, ast.Starred) else a), 'format')
        return CLEAN
      if f.attr in ('write', 'writelines', 'write_file'):
        for a in e.args:
          self.text(a, self.expr(a), 'write')
      b = base_name(f.value)
      rk = self.expr(f.value)
      if f.attr in SEQ_MUT and b and not recv_mod:
        kadd = (O if self.loop or allk & O else CLEAN) | (O if f.attr == 'extend' and allk & S else CLEAN) | (E if f.attr == 'append' and allk & S else CLEAN)
        self.touch(b, kadd)
        return CLEAN
      if f.attr == 'sort' and not recv_mod and b:
        if rk & O and self.key_injective(kw.get('key')):
          if b in self.env:
            self.env[b] = self.env[b] - O
        return CLEAN
      if f.attr in SET_MUT and rk & S:
        if allk & O:
          pass
        return CLEAN
      if f.attr == 'update' and b and not recv_mod and not rk & S:
        self.touch(b, (O if self.loop or allk & (S | O) else CLEAN))
        return CLEAN
      if f.attr == 'setdefault' and b and not recv_mod:
        self.touch(b, O if self.loop else CLEAN)
        return rk & O
      if rk & S:
        if f.attr in SET_METHODS:
          return S
        if f.attr == 'pop':
          return O
        if f.attr in ('issubset', 'issuperset', 'isdisjoint'):
          return CLEAN
      if f.attr == 'fromkeys':
        return O if allk & (S | O) else CLEAN
      # set().union(...) with a clean-looking receiver, e.g. set(x).union
    r = self.prog.resolve_func(self.mod, f)
    if r and not (isinstance(f, ast.Name) and f.id in self.env):
      fn = Fn(r[0], r[1])
      self.escape_args(e, r[1], False)
      return self.an.call_fn(fn, self.an.bind(r[1], args, kwargs, False))
    c = self.prog.resolve_class(self.mod, f)
    if c:
      k, init = c.find('__init__')
      if init is not None:
        self.an.call_fn(Fn(k.mod, init, k), self.an.bind(init, args, kwargs, True))
      elif c.dataclass() is not None:
        fields = [n for x in reversed(c.mro()) for n, _ in x.fields]
        for i, (st, kk) in enumerate(args):
          if i < len(fields):
            self.an.set_attr(c.name, fields[i], kk)
        for n, kk in kwargs:
          if n in fields:
            self.an.set_attr(c.name, n, kk)
      return CLEAN
    if isinstance(f, ast.Attribute):
      rk = self.expr(f.value)
      cands = self.an.method_index.get(f.attr, [])
      if isinstance(f.value, ast.Name) and f.value.id in ('self', 'cls') and self.f.cls:
        own = [(k, m) for k, m in cands if self.f.cls in k.mro() or k in self.f.cls.mro()]
        cands = own or cands
      elif self.type_hint(f.value) is not None:
        cls = self.type_hint(f.value)
        cands = [(k, m) for k, m in cands if k in cls.mro() or cls in k.mro()]
      elif self.prog.resolve_class(self.mod, f.value):
        cls = self.prog.resolve_class(self.mod, f.value)
        cands = [(k, m) for k, m in cands if k in cls.mro()]
      out = CLEAN
      for k, m in cands:
        static = any(isinstance(d, ast.Name) and d.id == 'staticmethod' for d in m.decorator_list)
        self.escape_args(e, m, not static)
        out |= self.an.call_fn(Fn(k.mod, m, k), self.an.bind(m, args, kwargs, not static))
      if cands:
        return out | (rk & O)
      if f.attr in ('items', 'keys', 'values', 'copy', 'get', 'pop', 'split', 'most_common', 'elements'):
        return (rk & (O | E)) | (O if f.attr == 'most_common' and rk & S else CLEAN)
      return rk & O | (O if allk & O else CLEAN)
    return O if allk & O else CLEAN

  def type_hint(self, e):
    """The program class a parameter is annotated with."""
    if not isinstance(e, ast.Name):
      return None
    fn = self.f
    while fn is not None:
      a = fn.node.args
      for p in a.posonlyargs + a.args + a.kwonlyargs:
        if p.arg == e.id and p.annotation is not None:
          for part in ast.walk(p.annotation):
            if isinstance(part, (ast.Name, ast.Attribute)):
              c = self.prog.resolve_class(self.mod, part)
              if c is not None and isinstance(p.annotation, (ast.Name, ast.Attribute, ast.BinOp)):
                return c
      fn = fn.outer
    return None

  def escape_args(self, e, node, skip_self):
    """Inside an arbitrary-order loop, an outer container handed to a mutator becomes order-tainted."""
    pos, kwo, va, kw = self.an.params(node)
    if skip_self:
      pos = pos[1:]
    pairs = list(zip(pos, e.args)) + [(k.arg, k.value) for k in e.keywords if k.arg]
    inner = set().union(*self.loop) if self.loop else set()
    for p, a in pairs:
      if isinstance(a, ast.Name) and a.id in self.env and a.id not in inner and self.loop and self.an.mutates(node, p) and not self.env[a.id] & S:
        self.touch(a.id, O)


def exits(body):
  return bool(body) and isinstance(body[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break))
