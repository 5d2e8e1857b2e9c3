"""What an __eq__ / __hash__ / __lt__ method of a Python class compares.

implied(C): the attributes that are equal whenever a == b holds (intersection
over all paths of __eq__ that can return a true value), and whether the
classes of the two objects are compared.
"""
import ast
import copy

TOP = None  # the path cannot return True: every fact holds


class Unknown(Exception):
  pass


def inter(a, b):
  if a is TOP:
    return b
  if b is TOP:
    return a
  return a & b


def union(a, b):
  if a is TOP or b is TOP:
    return TOP
  return a | b


class Eq:

  def __init__(self, prog, cls):
    self.prog, self.cls = prog, cls
    self.unknown = []

  def find(self, name):
    return self.cls.find(name)

  def implied(self):
    c, m = self.find('__eq__')
    if m is None:
      return None
    return self.method(c, m, {})

  # paths through a comparison method --------------------------------------
  def method(self, c, m, env, depth=0):
    if depth > 5:
      raise Unknown('recursion in __eq__')
    a = [x.arg for x in m.args.args]
    sub = {a[0]: 'self'}
    if len(a) > 1:
      sub[a[1]] = 'other'
    self.owner = c
    facts, falls = self.block(m.body, frozenset(), {'names': sub, 'vals': {}, 'owner': c, 'depth': depth})
    return facts

  def block(self, body, have, env):
    """(facts implied by 'a path of body returned true', facts at fall-through or TOP)."""
    ret = TOP
    for s in body:
      if isinstance(s, ast.Return):
        t, _ = self.cond(s.value, env)
        return inter(ret, union(have, t)), TOP
      if isinstance(s, ast.If):
        t, f = self.cond(s.test, env)
        e1, e2 = dict(env, vals=dict(env['vals'])), dict(env, vals=dict(env['vals']))
        r1, h1 = self.block(s.body, union(have, t), e1)
        r2, h2 = self.block(s.orelse, union(have, f), e2)
        ret = inter(ret, inter(r1, r2))
        have = inter(h1, h2)
        if have is TOP:
          return ret, TOP
        continue
      if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
        env['vals'][s.targets[0].id] = s.value
        continue
      if isinstance(s, ast.For):
        # for f in ('a', 'b'): if getattr(self, f) != getattr(other, f): return False
        names = self.const_names(s.iter, env)
        if names is not None and isinstance(s.target, ast.Name):
          for n in names:
            e = dict(env, vals=dict(env['vals']))
            e['vals'][s.target.id] = ast.Constant(n)
            r, h = self.block(s.body, have, e)
            ret = inter(ret, r)
            have = h
            if have is TOP:
              return ret, TOP
          continue
        raise Unknown('loop in __eq__')
      if isinstance(s, (ast.Expr, ast.Assert, ast.Delete, ast.Pass, ast.AnnAssign)):
        if isinstance(s, ast.Assert):
          t, _ = self.cond(s.test, env)
          have = union(have, t)
        continue
      if isinstance(s, ast.Raise):
        return ret, TOP
      raise Unknown('statement %s in __eq__' % type(s).__name__)
    return ret, have

  def const_names(self, e, env):
    if isinstance(e, ast.Name) and e.id in env['vals']:
      e = env['vals'][e.id]
    if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and e.value.id in ('self', 'cls'):
      for c in self.cls.mro():
        for n in c.node.body:
          if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == e.attr for t in n.targets):
            e = n.value
    if isinstance(e, (ast.Tuple, ast.List)) and all(isinstance(x, ast.Constant) for x in e.elts):
      return [x.value for x in e.elts]
    return None

  def cond(self, e, env):
    """(facts when e is true, facts when e is false)."""
    if e is None:
      return TOP, frozenset()
    if isinstance(e, ast.Constant):
      return (frozenset(), TOP) if e.value else (TOP, frozenset())
    if isinstance(e, ast.Name):
      if e.id == 'NotImplemented':
        return TOP, frozenset()
      if e.id in env['vals']:
        return self.cond(env['vals'][e.id], env)
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
      t, f = self.cond(e.operand, env)
      return f, t
    if isinstance(e, ast.BoolOp):
      t, f = None, None
      ts, fs = [], []
      for v in e.values:
        a, b = self.cond(v, env)
        ts.append(a)
        fs.append(b)
      if isinstance(e.op, ast.And):
        t = frozenset()
        for a in ts:
          t = union(t, a)
        f = TOP
        for b in fs:
          f = inter(f, b)
        return t, f
      t = TOP
      for a in ts:
        t = inter(t, a)
      f = frozenset()
      for b in fs:
        f = union(f, b)
      return t, f
    if isinstance(e, ast.IfExp):
      t, f = self.cond(e.test, env)
      bt, bf = self.cond(e.body, env)
      ot, of = self.cond(e.orelse, env)
      return inter(union(t, bt), union(f, ot)), inter(union(t, bf), union(f, of))
    if isinstance(e, ast.Compare) and len(e.ops) == 1:
      facts = self.same(e.left, e.comparators[0], env)
      if isinstance(e.ops[0], (ast.Eq, ast.Is)):
        if facts is None:
          raise Unknown('comparison `%s`' % ast.unparse(e)[:60])
        return facts, frozenset()
      if isinstance(e.ops[0], (ast.NotEq, ast.IsNot)):
        if facts is None:
          raise Unknown('comparison `%s`' % ast.unparse(e)[:60])
        return frozenset(), facts
      raise Unknown('comparison `%s`' % ast.unparse(e)[:60])
    if isinstance(e, ast.Call):
      f = e.func
      if isinstance(f, ast.Name) and f.id == 'isinstance' and len(e.args) == 2:
        if self.role(e.args[0], env) == 'other':
          c = self.prog.resolve_class(env['owner'].mod, e.args[1])
          if c is not None:
            return frozenset(['isinstance:' + c.name]), frozenset()
          if ast.unparse(e.args[1]) in ('type(self)', 'self.__class__'):
            return frozenset(['isinstance:' + self.cls.name]), frozenset()
        return frozenset(), frozenset()
      if isinstance(f, ast.Name) and f.id == 'all' and len(e.args) == 1 and isinstance(e.args[0], (ast.GeneratorExp, ast.ListComp)):
        g = e.args[0]
        if len(g.generators) == 1 and isinstance(g.generators[0].target, ast.Name) and not g.generators[0].ifs:
          names = self.const_names(g.generators[0].iter, env)
          if names is not None:
            t = frozenset()
            for n in names:
              en = dict(env, vals=dict(env['vals']))
              en['vals'][g.generators[0].target.id] = ast.Constant(n)
              t = union(t, self.cond(g.elt, en)[0])
            return t, frozenset()
      if isinstance(f, ast.Name) and f.id == 'bool' and len(e.args) == 1:
        return self.cond(e.args[0], env)
      if isinstance(f, ast.Attribute) and f.attr in ('__eq__', '__ne__') or isinstance(f, ast.Attribute) and self.role(f.value, env) == 'self':
        sup = isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) and f.value.func.id == 'super'
        args = [self.role(a, env) for a in e.args]
        if sup or self.role(f.value, env) == 'self' or (args[:2] == ['self', 'other']):
          mro = self.cls.mro()
          if sup:
            mro = mro[mro.index(env['owner']) + 1:]
          base = self.prog.resolve_class(env['owner'].mod, f.value)
          if base is not None:
            mro = base.mro()
          for c in mro:
            if f.attr in c.methods:
              if 'other' not in args:
                break
              return self.method_in(c, c.methods[f.attr], env['depth'] + 1), frozenset()
      if isinstance(f, ast.Name):
        r = self.prog.resolve_func(env['owner'].mod, f)
        args = [self.role(a, env) for a in e.args]
        if r and args == ['self', 'other']:
          m = r[1]
          facts, _ = self.block(m.body, frozenset(), {'names': {m.args.args[0].arg: 'self', m.args.args[1].arg: 'other'}, 'vals': {}, 'owner': env['owner'], 'depth': env['depth'] + 1})
          return facts, frozenset()
    raise Unknown('condition `%s`' % ast.unparse(e)[:60])

  def method_in(self, c, m, depth):
    a = [x.arg for x in m.args.args]
    if depth > 5:
      raise Unknown('recursion')
    facts, _ = self.block(m.body, frozenset(), {'names': {a[0]: 'self', a[1]: 'other'}, 'vals': {}, 'owner': c, 'depth': depth})
    return facts

  # the same function of self and of other -----------------------------------
  def role(self, e, env):
    return env['names'].get(e.id) if isinstance(e, ast.Name) else None

  def norm(self, e, env):
    """(role or None, expression with self/other replaced by `_o`)."""
    roles = set()

    class R(ast.NodeTransformer):
      def visit_Name(s, n):
        if n.id in env['names']:
          roles.add(env['names'][n.id])
          return ast.Name('_o', ast.Load())
        if n.id in env['vals']:
          return s.visit(copy.deepcopy(env['vals'][n.id]))
        return n

      def visit_Call(s, n):
        n = s.generic_visit(n)
        if isinstance(n.func, ast.Name) and n.func.id == 'getattr' and len(n.args) == 2 and isinstance(n.args[1], ast.Constant):
          return ast.Attribute(n.args[0], n.args[1].value, ast.Load())
        return n
    out = R().visit(copy.deepcopy(e))
    return roles, out

  def same(self, a, b, env):
    """Facts implied by a == b, None when the sides are not the same function of the two objects."""
    if isinstance(a, ast.Name) and a.id in env['vals']:
      a = env['vals'][a.id]
    if isinstance(b, ast.Name) and b.id in env['vals']:
      b = env['vals'][b.id]
    if self.role(a, env) and self.role(b, env) and self.role(a, env) != self.role(b, env):
      return TOP   # identity: everything is equal
    if isinstance(a, (ast.Tuple, ast.List)) and isinstance(b, (ast.Tuple, ast.List)):
      if len(a.elts) != len(b.elts):
        return None
      out = frozenset()
      for x, y in zip(a.elts, b.elts):
        s = self.same(x, y, env)
        if s is None:
          return None
        out = union(out, s)
      return out
    ra, na = self.norm(a, env)
    rb, nb = self.norm(b, env)
    if ast.unparse(na) != ast.unparse(nb) or ra == rb or len(ra) != 1 or len(rb) != 1:
      return None
    return self.facts_of(na)

  def facts_of(self, n):
    """What equality of the value n (a function of _o) tells about _o."""
    out = {'expr:' + ast.unparse(n)}
    if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == '_o':
      if n.attr == '__dict__':
        return frozenset(['*'])
      if n.attr == '__class__':
        return frozenset(['isinstance:' + self.cls.name])
      out.add(n.attr)
      c, m = self.find(n.attr)
      if m is not None and c.is_property(m):
        out |= self.value_facts(c, m)
      return frozenset(out)
    if isinstance(n, (ast.Tuple, ast.List)):
      for x in n.elts:
        out |= self.facts_of(x)
      return frozenset(out)
    if isinstance(n, ast.Call):
      if isinstance(n.func, ast.Name) and n.func.id in ('str', 'repr', 'vars', 'type', 'tuple', 'list', 'frozenset', 'set', 'sorted') and len(n.args) == 1:
        a = n.args[0]
        if isinstance(a, ast.Name) and a.id == '_o':
          if n.func.id == 'vars':
            return frozenset(['*'])
          if n.func.id == 'type':
            return frozenset(['isinstance:' + self.cls.name])
          for nm in (['__str__', '__repr__'] if n.func.id == 'str' else ['__repr__']):
            c, m = self.find(nm)
            if m is not None:
              return frozenset(out | self.value_facts(c, m))
          return frozenset(out)
        if n.func.id in ('str', 'repr', 'tuple', 'list', 'frozenset', 'set', 'sorted'):
          # equal containers or texts of the same attribute: the attribute is equal (up to its type)
          return frozenset(out | set(self.facts_of(a)))
      if isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == '_o' and not n.args:
        c, m = self.find(n.func.attr)
        if m is not None:
          return frozenset(out | self.value_facts(c, m))
      return frozenset(out)
    if isinstance(n, (ast.JoinedStr, ast.BinOp)):
      return frozenset(out | set(self.embedded(n, '_o')))
    return frozenset(out)

  def value_facts(self, c, m, depth=0):
    """Attributes determined by the value a zero-argument method returns."""
    rets = [s for s in ast.walk(m) if isinstance(s, ast.Return)]
    if len(rets) != 1 or rets[0].value is None or any(isinstance(s, (ast.If, ast.For, ast.While)) for s in ast.walk(m)):
      return set()
    sel = m.args.args[0].arg if m.args.args else 'self'
    vals = {s.targets[0].id: s.value for s in m.body if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name)}
    _, n = self.norm(rets[0].value, {'names': {sel: 'self'}, 'vals': vals})
    return set(self.facts_of(n))

  def embedded(self, n, obj):
    """Attributes recoverable from a formatted string: exactly one hole, constant text around it."""
    holes = []

    def go(x):
      if isinstance(x, ast.Constant):
        return
      if isinstance(x, ast.JoinedStr):
        for v in x.values:
          go(v)
      elif isinstance(x, ast.FormattedValue):
        go(x.value)
      elif isinstance(x, ast.BinOp) and isinstance(x.op, ast.Add):
        go(x.left)
        go(x.right)
      elif isinstance(x, ast.BinOp) and isinstance(x.op, ast.Mod):
        go(x.left)
        go(x.right)
      else:
        holes.append(x)
    go(n)
    if len(holes) == 1:
      return self.facts_of(holes[0])
    return set()


class Determined:
  """Closure of the attributes fixed by a set of compared facts, through the constructor."""

  def __init__(self, prog, cls, facts):
    self.prog, self.cls = prog, cls
    self.eq = Eq(prog, cls)
    self.sites = {}   # attr -> [(branch path, rhs, env of locals)]
    self.memo = {}    # attr -> [(attributes read by the memoising method, methods it calls)]
    for c in reversed(cls.mro()):
      for name, m in c.methods.items():
        if name == '__init__':
          self.walk(m.body, (), m)
        else:
          for n in ast.walk(m):
            if isinstance(n, (ast.Assign, ast.AugAssign, ast.AnnAssign)):
              for t in (n.targets if isinstance(n, ast.Assign) else [n.target]):
                if is_self_attr(t):
                  # a value memoised by a method without arguments is a function of the attributes that method reads
                  if len(m.args.args) == 1 and not m.args.vararg and not m.args.kwarg and not m.args.kwonlyargs and isinstance(n, ast.Assign):
                    reads = frozenset(x.attr for x in ast.walk(m) if is_self_attr(x) and x.attr != t.attr and cls.find(x.attr)[1] is None)
                    calls = frozenset(x.attr for x in ast.walk(m) if is_self_attr(x) and cls.find(x.attr)[1] is not None)
                    self.memo.setdefault(t.attr, []).append((reads, calls))
                  else:
                    self.sites.setdefault(t.attr, []).append((('other method', name), None))
    self.all = set(self.sites) | set(self.memo)
    for c in cls.mro():
      if c.dataclass() is not None:
        self.all |= {f for f, _ in c.fields}
    self.known = set(facts)
    if '*' in self.known:
      self.known |= self.all
    self.close()

  def walk(self, body, path, m):
    for s in body:
      if isinstance(s, (ast.Assign, ast.AnnAssign)):
        targets = s.targets if isinstance(s, ast.Assign) else [s.target]
        for t in targets:
          if isinstance(t, (ast.Tuple, ast.List)):
            for i, x in enumerate(t.elts):
              if is_self_attr(x):
                self.sites.setdefault(x.attr, []).append((path, ('part', i, ast.unparse(s.value)) if s.value is not None else None))
          elif is_self_attr(t):
            self.sites.setdefault(t.attr, []).append((path, s.value))
      elif isinstance(s, ast.If):
        self.walk(s.body, path + ((id(s), True),), m)
        self.walk(s.orelse, path + ((id(s), False),), m)
      elif isinstance(s, (ast.For, ast.While, ast.With, ast.Try)):
        self.walk(s.body, path + ((id(s), 'x'),), m)

  def inputs(self, e):
    """Attributes of self an expression reads, and whether it reads anything else that varies."""
    attrs, other = set(), False
    for n in ast.walk(e):
      if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == 'self':
        attrs.add(n.attr)
      elif isinstance(n, ast.Name) and n.id != 'self':
        if not self.is_global(n.id):
          other = True
    return attrs, other

  def is_global(self, name):
    m = self.cls.mod
    return name in m.funcs or name in m.classes or name in m.imports or name in m.assigns or name in dir(__builtins__) or name in ('len', 'str', 'int', 'sorted', 'set', 'list', 'tuple', 'repr', 'frozenset')

  def close(self):
    for _ in range(8):
      before = len(self.known)
      for a, ms in self.memo.items():
        start = self.sites.get(a, [])
        if a not in self.known and all(r <= self.known and not self.unknown_calls(k) for r, k in ms) and all(isinstance(r, ast.Constant) for _, r in start):
          self.known.add(a)
      for a, sites in self.sites.items():
        if a in self.memo:
          continue
        if a in self.known:
          continue
        if any(r is None for _, r in sites):
          continue
        branches = {p for p, _ in sites}
        if all(self.site_known(a, p, r) for p, r in sites) and (len(sites) == 1 or self.discriminated(branches)):
          self.known.add(a)
      if len(self.known) == before:
        return

  def unknown_calls(self, names, depth=3):
    for n in names:
      m = self.cls.find(n)[1]
      for x in ast.walk(m):
        if is_self_attr(x):
          if self.cls.find(x.attr)[1] is not None:
            if x.attr != n and (depth == 0 or self.unknown_calls([x.attr], depth - 1)):
              return True
          elif x.attr in self.all and x.attr not in self.known:
            return True
    return False

  def site_known(self, a, path, rhs):
    if isinstance(rhs, tuple):
      return any(k in self.known and any(r2 == rhs for _, r2 in self.sites[k]) for k in self.sites if k != a)
    if isinstance(rhs, ast.Constant):
      return True
    attrs, other = self.inputs(rhs)
    if not other and attrs <= self.known:
      return True
    if isinstance(rhs, ast.Call) and isinstance(rhs.func, ast.Name) and rhs.func.id == 'len':
      return False
    for b, sites in self.sites.items():
      if b == a or b not in self.known:
        continue
      for p2, r2 in sites:
        if isinstance(r2, tuple) or r2 is None:
          continue
        if p2 == path:
          if ast.unparse(r2) == ast.unparse(rhs):
            return True
          _, n = self.eq.norm(r2, {'names': {'self': 'self'}, 'vals': {}})
          if a in self.eq.embedded(n, '_o') and isinstance(r2, (ast.JoinedStr, ast.BinOp)):
            return True
          # known = f(x) with f injective formatting of the same local
          if isinstance(r2, (ast.JoinedStr, ast.BinOp)):
            holes = [ast.unparse(h) for h in hole_exprs(r2)]
            if holes == [ast.unparse(rhs)]:
              return True
            # rhs is a function of the single local that is recoverable from r2
            if len(holes) == 1 and names_of(rhs) <= {holes[0]} | {'self'}:
              return True
          if isinstance(r2, ast.Name) and self.inputs_only(rhs, r2.id):
            return True
    return False

  def inputs_only(self, e, name):
    return all(n.id in (name, 'self') or self.is_global(n.id) for n in ast.walk(e) if isinstance(n, ast.Name)) and self.inputs(e)[0] <= self.known

  def discriminated(self, branches):
    for b, sites in self.sites.items():
      if b in self.known and {p for p, _ in sites} >= branches and all(isinstance(r, ast.Constant) for _, r in sites):
        if len({r.value for _, r in sites}) == len(sites):
          return True
    return False


def names_of(e):
  return {n.id for n in ast.walk(e) if isinstance(n, ast.Name)}


def hole_exprs(n):
  out = []

  def go(x):
    if isinstance(x, ast.Constant):
      return
    if isinstance(x, ast.JoinedStr):
      for v in x.values:
        go(v)
    elif isinstance(x, ast.FormattedValue):
      go(x.value)
    elif isinstance(x, ast.BinOp) and isinstance(x.op, (ast.Add, ast.Mod)):
      go(x.left)
      go(x.right)
    else:
      out.append(x)
  go(n)
  return out


def is_self_attr(t):
  return isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == 'self'


def observed(cls):
  """{attr: first method that reads it} over the behaviour of an instance."""
  out = {}
  skip = {'__init__', '__eq__', '__ne__', '__hash__', '__repr__', '__lt__', '__post_init__'}
  seen = set()
  for c in cls.mro():
    for name, m in c.methods.items():
      if name in seen or name in skip:
        continue
      seen.add(name)
      if not m.args.args:
        continue
      sel = m.args.args[0].arg
      # helpers of the comparison are not behaviour
      for n in ast.walk(m):
        if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == sel and isinstance(n.ctx, ast.Load):
          owner, mm = cls.find(n.attr)
          if mm is None:
            out.setdefault(n.attr, '%s.%s' % (c.name, name))
  return out
