"""Abstract interpretation of Python text generators over string templates.

A text is a tuple of parts: literal strings and Hole objects standing for the
values the generator does not know (an attribute, the result of an opaque
call). Functions are evaluated abstractly on all their branches: the result is
a list of (conditions, value, effects). Loops over unknown sequences are
evaluated for one arbitrary iteration (see iteration()).
"""
import ast


class Unsupported(Exception):
  pass


class Hole:

  def __init__(self, name, **info):
    self.name, self.info = name, info

  def __eq__(self, o):
    return isinstance(o, Hole) and self.name == o.name

  def __hash__(self):
    return hash(self.name)

  def __repr__(self):
    return '<%s>' % self.name


def is_text(v):
  return isinstance(v, tuple) and all(isinstance(p, (str, Hole)) for p in v)


def text(*parts):
  out = []
  for p in parts:
    for q in (p if isinstance(p, tuple) else (p,)):
      if isinstance(q, str) and out and isinstance(out[-1], str):
        out[-1] += q
      elif q != '':
        out.append(q)
  return tuple(out)


def show(v):
  if is_text(v):
    return ''.join(p if isinstance(p, str) else '<%s>' % p.name for p in v)
  return repr(v)


class Sym:
  """An opaque Python object."""

  def __init__(self, name, cls=None):
    self.name, self.cls = name, cls

  def __repr__(self):
    return 'Sym(%s)' % self.name


class Lst:
  """A list of known elements with optional opaque segments."""

  def __init__(self, elts):
    self.elts = list(elts)


class Raised:

  def __repr__(self):
    return 'Raised'


RAISED = Raised()


class Ev:

  def __init__(self, prog, opaque=(), inline_depth=6):
    self.prog = prog
    self.opaque = set(opaque)   # method names kept as holes
    self.depth = inline_depth

  # functions --------------------------------------------------------------
  def call(self, mod, cls, fn, args, kwargs=None, depth=0):
    """[(conds, value)] of calling fn."""
    if depth > self.depth:
      raise Unsupported('inlining depth')
    kwargs = dict(kwargs or {})
    env = {}
    a = fn.args
    pos = a.posonlyargs + a.args
    for p, v in zip(pos, args):
      env[p.arg] = v
    if a.vararg:
      env[a.vararg.arg] = Lst(args[len(pos):])
    elif len(args) > len(pos):
      raise Unsupported('too many arguments for ' + fn.name)
    for k in list(kwargs):
      if k in [p.arg for p in pos + a.kwonlyargs]:
        env[k] = kwargs.pop(k)
    if kwargs:
      raise Unsupported('unknown keyword arguments')
    for p, d in list(zip(pos[len(pos) - len(a.defaults):], a.defaults)) + [(p, d) for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]:
      if p.arg not in env:
        env[p.arg] = self.expr1(d, mod, cls, {}, depth)
    for p in pos + a.kwonlyargs:
      env.setdefault(p.arg, Sym(p.arg))
    out = []
    for conds, env2, ret in self.block(fn.body, mod, cls, [((), env, None)], depth):
      out.append((conds, None if ret is None else ret[0]))
    return out

  def block(self, body, mod, cls, states, depth):
    for s in body:
      nxt = []
      for conds, env, ret in states:
        if ret is not None:
          nxt.append((conds, env, ret))
        else:
          nxt += self.stmt(s, mod, cls, conds, env, depth)
      states = nxt
      if len(states) > 64:
        raise Unsupported('too many paths')
    return states

  def stmt(self, s, mod, cls, conds, env, depth):
    if isinstance(s, ast.Return):
      if s.value is None:
        return [(conds, env, (None,))]
      return [(c, env, (v,)) for c, v in self.expr(s.value, mod, cls, env, depth, conds)]
    if isinstance(s, ast.Raise):
      return [(conds, env, (RAISED,))]
    if isinstance(s, (ast.Delete, ast.Pass, ast.Assert, ast.Import, ast.ImportFrom)):
      return [(conds, env, None)]
    if isinstance(s, ast.Expr):
      if isinstance(s.value, ast.Constant):
        return [(conds, env, None)]
      if isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute) and s.value.func.attr in ('append', 'extend') and isinstance(s.value.func.value, ast.Name):
        nm = s.value.func.value.id
        out = []
        for c, v in self.expr(s.value.args[0], mod, cls, env, depth, conds):
          cur = env.get(nm)
          if not isinstance(cur, Lst):
            raise Unsupported('append to an unknown list')
          e2 = dict(env)
          e2[nm] = Lst(cur.elts + ([v] if s.value.func.attr == 'append' else (v.elts if isinstance(v, Lst) else [v])))
          out.append((c, e2, None))
        return out
      return [(c, env, (v,) if v is RAISED else None) for c, v in self.expr(s.value, mod, cls, env, depth, conds)]
    if isinstance(s, (ast.Assign, ast.AnnAssign)):
      if s.value is None:
        return [(conds, env, None)]
      out = []
      targets = s.targets if isinstance(s, ast.Assign) else [s.target]
      for c, v in self.expr(s.value, mod, cls, env, depth, conds):
        if v is RAISED:
          out.append((c, env, (v,)))
          continue
        e2 = dict(env)
        for t in targets:
          self.bind(t, v, e2)
        out.append((c, e2, None))
      return out
    if isinstance(s, ast.AugAssign):
      out = []
      for c, v in self.expr(ast.BinOp(as_load(s.target), s.op, s.value), mod, cls, env, depth, conds):
        e2 = dict(env)
        self.bind(s.target, v, e2)
        out.append((c, e2, None))
      return out
    if isinstance(s, ast.If):
      out = []
      for c, t in self.cond(s.test, mod, cls, env, depth, conds):
        out += self.block(s.body if t else s.orelse, mod, cls, [(c, dict(env), None)], depth)
      return out
    if isinstance(s, ast.For):
      its = self.expr(s.iter, mod, cls, env, depth, conds)
      out = []
      for c, it in its:
        if isinstance(it, Lst):
          states = [(c, env, None)]
          for x in it.elts:
            nxt = []
            for cc, ee, rr in states:
              if rr is not None:
                nxt.append((cc, ee, rr))
                continue
              e2 = dict(ee)
              self.bind(s.target, x, e2)
              nxt += self.block(s.body, mod, cls, [(cc, e2, None)], depth)
            states = nxt
          out += states
        else:
          out += self.iteration(s, it, mod, cls, c, env, depth)
      return out
    raise Unsupported('statement %s' % type(s).__name__)

  def iteration(self, s, it, mod, cls, conds, env, depth):
    """One arbitrary iteration of a loop over an opaque sequence: carried texts become prefix + one step."""
    carried = {n.id for b in s.body for n in ast.walk(b) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)} & set(env)
    carried |= {n.func.value.id for b in s.body for n in ast.walk(b) if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ('append', 'extend') and isinstance(n.func.value, ast.Name)} & set(env)
    e2 = dict(env)
    for n in carried:
      if isinstance(env[n], Lst):
        e2[n] = Lst(env[n].elts + [(Hole('loop:' + n),)])
      else:
        e2[n] = (Hole('loop:' + n, init=env[n]),)
    elem = Sym('elem')
    idx = (Hole('idx'),)
    if isinstance(s.iter, ast.Call) and isinstance(s.iter.func, ast.Name) and s.iter.func.id == 'enumerate':
      self.bind(s.target, Lst([idx, elem]), e2)
    else:
      self.bind(s.target, elem, e2)
    return self.block(s.body, mod, cls, [(conds, e2, None)], depth)

  def bind(self, t, v, env):
    if isinstance(t, ast.Name):
      env[t.id] = v
    elif isinstance(t, (ast.Tuple, ast.List)) and sum(isinstance(x, ast.Starred) for x in t.elts) == 1:
      k = next(i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred))
      m = len(t.elts) - k - 1
      known = isinstance(v, Lst) and not any(is_text(x) and any(isinstance(p, Hole) and p.name.startswith('loop:') for p in x) for x in v.elts) and len(v.elts) >= k + m
      nm = show(v) if is_text(v) else getattr(v, 'name', '?')
      for i, x in enumerate(t.elts):
        if i == k:
          self.bind(x.value, Lst(v.elts[k:len(v.elts) - m]) if known else Sym('%s[%s:%s]' % (nm, k or '', -m if m else '')), env)
        else:
          j = i if i < k else i - len(t.elts)
          self.bind(x, v.elts[j] if known else Sym('%s[%d]' % (nm, j)) if isinstance(v, Sym) else (Hole('%s[%d]' % (nm, j)),), env)
    elif isinstance(t, (ast.Tuple, ast.List)):
      if isinstance(v, Lst) and len(v.elts) == len(t.elts):
        for x, y in zip(t.elts, v.elts):
          self.bind(x, y, env)
      else:
        for i, x in enumerate(t.elts):
          self.bind(x, (Hole('%s[%d]' % (show(v) if is_text(v) else getattr(v, 'name', '?'), i)),), env)
    elif isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name):
      env[t.value.id + '.' + t.attr] = v
    else:
      raise Unsupported('assignment target')

  # conditions --------------------------------------------------------------
  def cond(self, e, mod, cls, env, depth, conds):
    """[(conds, bool)]"""
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
      return [(c, not t) for c, t in self.cond(e.operand, mod, cls, env, depth, conds)]
    if isinstance(e, ast.BoolOp):
      states = [(conds, None)]
      want = isinstance(e.op, ast.Or)
      for v in e.values:
        nxt = []
        for c, t in states:
          if t is want:
            nxt.append((c, t))
          else:
            nxt += self.cond(v, mod, cls, env, depth, c)
        states = nxt
      return states
    out = []
    for c, v in self.expr(e, mod, cls, env, depth, conds):
      if isinstance(v, bool) or v is None or isinstance(v, int):
        out.append((c, bool(v)))
      elif is_text(v) and not any(isinstance(p, Hole) for p in v):
        out.append((c, bool(v)))
      elif is_text(v) and any(isinstance(p, str) and p for p in v):
        out.append((c, True))
      elif isinstance(v, Lst):
        out.append((c, bool(v.elts)))
      else:
        key = show(v) if is_text(v) else getattr(v, 'name', repr(v))
        neg = key.startswith('not ') or key.startswith('<not ')
        key = key.replace('not ', '', 1) if neg else key
        known = dict(c).get(key)
        if known is not None:
          out.append((c, known != neg))
        else:
          out.append((c + ((key, True),), not neg))
          out.append((c + ((key, False),), neg))
    return out

  # expressions -------------------------------------------------------------
  def expr1(self, e, mod, cls, env, depth):
    r = self.expr(e, mod, cls, env, depth, ())
    if len(r) != 1:
      raise Unsupported('branching default')
    return r[0][1]

  def many(self, es, mod, cls, env, depth, conds):
    states = [(conds, [])]
    for e in es:
      nxt = []
      for c, vs in states:
        for c2, v in self.expr(e, mod, cls, env, depth, c):
          nxt.append((c2, vs + [v]))
      states = nxt
    return states

  def to_text(self, v):
    if is_text(v):
      return v
    if isinstance(v, bool) or v is None:
      return (str(v),)
    if isinstance(v, int):
      return (str(v),)
    if isinstance(v, Sym):
      return (Hole(v.name),)
    raise Unsupported('text of %r' % (v,))

  def expr(self, e, mod, cls, env, depth, conds):
    R = lambda v: [(conds, v)]
    if isinstance(e, ast.Constant):
      if isinstance(e.value, str):
        return R((e.value,) if e.value else ())
      return R(e.value)
    if isinstance(e, ast.Name):
      if e.id in env:
        return R(env[e.id])
      if e.id in mod.assigns and isinstance(mod.assigns[e.id], ast.Constant) and isinstance(mod.assigns[e.id].value, str):
        return R((mod.assigns[e.id].value,))
      r = Sym(e.id)
      r.ref = e.id
      return R(r)
    if isinstance(e, ast.JoinedStr):
      states = [(conds, ())]
      for v in e.values:
        nxt = []
        for c, t in states:
          if isinstance(v, ast.Constant):
            nxt.append((c, text(t, v.value)))
          else:
            if v.format_spec is not None or v.conversion not in (-1, 115):
              raise Unsupported('format spec')
            for c2, x in self.expr(v.value, mod, cls, env, depth, c):
              nxt.append((c2, text(t, self.to_text(x)) if x is not RAISED else RAISED))
        states = nxt
      return states
    if isinstance(e, ast.BinOp):
      out = []
      for c, (l, r) in self.many([e.left, e.right], mod, cls, env, depth, conds):
        if l is RAISED or r is RAISED:
          out.append((c, RAISED))
        elif isinstance(e.op, ast.Add):
          if isinstance(l, Lst) and isinstance(r, Lst):
            out.append((c, Lst(l.elts + r.elts)))
          elif isinstance(l, int) and isinstance(r, int):
            out.append((c, l + r))
          elif is_text(l) and is_text(r) and not (isinstance(l, tuple) and l and isinstance(l[0], Hole) and l[0].name == 'idx'):
            out.append((c, text(l, r)))
          else:
            out.append((c, (Hole('(%s + %s)' % (show_any(l), show_any(r))),)))
        elif isinstance(l, int) and isinstance(r, int) and isinstance(e.op, (ast.Sub, ast.Mult)):
          out.append((c, l - r if isinstance(e.op, ast.Sub) else l * r))
        elif isinstance(e.op, ast.Mod) and is_text(l) and all(isinstance(p, str) for p in l):
          out.append((c, self.percent(''.join(l), r)))
        else:
          out.append((c, (Hole('(%s %s %s)' % (show_any(l), type(e.op).__name__, show_any(r)), op=type(e.op).__name__, left=l, right=r),)))
      return out
    if isinstance(e, ast.IfExp):
      out = []
      for c, t in self.cond(e.test, mod, cls, env, depth, conds):
        out += self.expr(e.body if t else e.orelse, mod, cls, env, depth, c)
      return out
    if isinstance(e, (ast.BoolOp,)):
      # value semantics: evaluate as branches
      states = []
      cur = [conds]
      for i, v in enumerate(e.values):
        nxt = []
        for c in cur:
          if i + 1 == len(e.values):
            states += self.expr(v, mod, cls, env, depth, c)
            continue
          for c2, val in self.expr(v, mod, cls, env, depth, c):
            for c3, t in self.truth(val, c2):
              if t == isinstance(e.op, ast.Or):
                states.append((c3, val if not (is_text(val) and any(isinstance(p, Hole) for p in val)) or not isinstance(e.op, ast.Or) else val))
              else:
                nxt.append(c3)
        cur = nxt
      return states
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
      return [(c, not t) for c, t in self.cond(e.operand, mod, cls, env, depth, conds)]
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.USub):
      return [(c, -v if isinstance(v, int) else (Hole('(-%s)' % show_any(v)),)) for c, v in self.expr(e.operand, mod, cls, env, depth, conds)]
    if isinstance(e, (ast.List, ast.Tuple)):
      return [(c, Lst(v)) for c, v in self.many([x.value if isinstance(x, ast.Starred) else x for x in e.elts], mod, cls, env, depth, conds)]
    if isinstance(e, ast.Compare):
      out = []
      for c, vs in self.many([e.left] + e.comparators, mod, cls, env, depth, conds):
        out.append((c, self.compare(e, vs)))
      return out
    if isinstance(e, ast.Attribute):
      return self.attribute(e, mod, cls, env, depth, conds)
    if isinstance(e, ast.Subscript):
      out = []
      for c, v in self.expr(e.value, mod, cls, env, depth, conds):
        if isinstance(v, Lst) and isinstance(e.slice, ast.Constant) and isinstance(e.slice.value, int) and -len(v.elts) <= e.slice.value < len(v.elts):
          out.append((c, v.elts[e.slice.value]))
        elif isinstance(v, Lst) and isinstance(e.slice, ast.UnaryOp) and const_int(e.slice) is not None and -len(v.elts) <= const_int(e.slice) < len(v.elts):
          out.append((c, v.elts[const_int(e.slice)]))
        elif isinstance(v, Lst) and isinstance(e.slice, ast.Slice) and all(x is None or const_int(x) is not None for x in (e.slice.lower, e.slice.upper, e.slice.step)):
          out.append((c, Lst(v.elts[slice(*[None if x is None else const_int(x) for x in (e.slice.lower, e.slice.upper, e.slice.step)])])))
        elif isinstance(v, Lst) and not isinstance(e.slice, (ast.Slice, ast.Tuple)):
          for c2, i in self.expr(e.slice, mod, cls, env, depth, c):
            if isinstance(i, int) and -len(v.elts) <= i < len(v.elts):
              out.append((c2, v.elts[i]))
            else:
              out.append((c2, (Hole('%s[%s]' % (show_any(v), ast.unparse(e.slice))),)))
        else:
          nm = '%s[%s]' % (show_any(v), ast.unparse(e.slice))
          out.append((c, Sym(nm) if isinstance(v, Sym) else (Hole(nm),)))
      return out
    if isinstance(e, ast.Call):
      return self.call_expr(e, mod, cls, env, depth, conds)
    if isinstance(e, (ast.ListComp, ast.GeneratorExp)):
      return R(Sym(ast.unparse(e)))
    if isinstance(e, ast.Lambda):
      return R(Sym(ast.unparse(e)))
    raise Unsupported('expression %s' % type(e).__name__)

  def truth(self, v, c):
    if isinstance(v, (bool, int)) or v is None:
      return [(c, bool(v))]
    if is_text(v) and any(isinstance(p, str) for p in v):
      return [(c, True)]
    if is_text(v) and not v:
      return [(c, False)]
    if isinstance(v, Lst):
      return [(c, bool(v.elts))]
    key = show_any(v)
    known = dict(c).get(key)
    if known is not None:
      return [(c, known)]
    return [(c + ((key, True),), True), (c + ((key, False),), False)]

  def compare(self, e, vs):
    if len(vs) == 2:
      a, b = vs
      op = type(e.ops[0]).__name__
      ca, cb = const_of(a), const_of(b)
      if ca is not NOCONST and cb is not NOCONST:
        try:
          return {'Eq': ca == cb, 'NotEq': ca != cb, 'Is': ca is cb, 'IsNot': ca is not cb}.get(op) if op in ('Eq', 'NotEq', 'Is', 'IsNot') else \
              {'Lt': lambda: ca < cb, 'LtE': lambda: ca <= cb, 'Gt': lambda: ca > cb, 'GtE': lambda: ca >= cb}[op]()
        except (KeyError, TypeError):
          pass
      # canonical polarity
      neg = {'NotEq': 'Eq', 'IsNot': 'Is', 'NotIn': 'In'}
      nm = '%s %s %s' % (show_any(a), neg.get(op, op), show_any(b))
      return (Hole(('not ' if op in neg else '') + nm),)
    return (Hole(' '.join(show_any(v) for v in vs)),)

  def percent(self, fmt, r):
    args = r.elts if isinstance(r, Lst) else [r]
    out, i, k = (), 0, 0
    while i < len(fmt):
      j = fmt.find('%', i)
      if j < 0:
        out = text(out, fmt[i:])
        break
      out = text(out, fmt[i:j])
      ch = fmt[j + 1:j + 2]
      if ch == '%':
        out = text(out, '%')
      elif ch in 'sd':
        if k >= len(args):
          raise Unsupported('% arguments')
        out = text(out, self.to_text(args[k]))
        k += 1
      else:
        raise Unsupported('% format')
      i = j + 2
    return out

  def fmt(self, f, args, kwargs):
    """str.format on a constant format string."""
    out, i, k = (), 0, 0
    while i < len(f):
      ch = f[i]
      if ch in '{}' and f[i + 1:i + 2] == ch:
        out = text(out, ch)
        i += 2
      elif ch == '{':
        j = f.index('}', i)
        nm = f[i + 1:j]
        if nm == '' or nm.isdigit():
          v = args[k if nm == '' else int(nm)]
          k += 1
        elif nm in kwargs:
          v = kwargs[nm]
        else:
          raise Unsupported('format field ' + nm)
        out = text(out, self.to_text(v))
        i = j + 1
      else:
        j = i
        while j < len(f) and f[j] not in '{}':
          j += 1
        out = text(out, f[i:j])
        i = max(j, i + 1)
    return out

  def attribute(self, e, mod, cls, env, depth, conds):
    if isinstance(e.value, ast.Name):
      key = e.value.id + '.' + e.attr
      if key in env:
        return [(conds, env[key])]
    out = []
    for c, v in self.expr(e.value, mod, cls, env, depth, conds):
      if isinstance(v, Sym):
        k = v.cls
        if k is not None:
          owner, m = k.find(e.attr)
          if m is not None and owner.is_property(m):
            if e.attr in self.opaque or is_abstract(m):
              out.append((c, (Hole('%s.%s' % (v.name, e.attr)),)))
            else:
              for c2, r in self.call(owner.mod, k, m, [v], {}, depth + 1):
                out += merge(c, c2, r)
            continue
          # class constants
          done = False
          for kk in k.mro():
            for n in kk.node.body:
              if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == e.attr for t in n.targets) and isinstance(n.value, ast.Constant) and isinstance(n.value.value, str) and not done:
                out.append((c, (n.value.value,)))
                done = True
          if done:
            continue
        out.append((c, (Hole('%s.%s' % (v.name, e.attr)),) if True else None))
      elif is_text(v) and len(v) == 1 and isinstance(v[0], Hole):
        out.append((c, (Hole('%s.%s' % (v[0].name, e.attr)),)))
      else:
        out.append((c, (Hole('%s.%s' % (show_any(v), e.attr)),)))
    return out

  def call_expr(self, e, mod, cls, env, depth, conds):
    f = e.func
    out = []
    names = [k.arg for k in e.keywords]
    if None in names:
      raise Unsupported('**kwargs')
    star = any(isinstance(a, ast.Starred) for a in e.args)
    for c, vs in self.many([a.value if isinstance(a, ast.Starred) else a for a in e.args] + [k.value for k in e.keywords], mod, cls, env, depth, conds):
      args, kw = vs[:len(e.args)], dict(zip(names, vs[len(e.args):]))
      if any(v is RAISED for v in vs):
        out.append((c, RAISED))
        continue
      out += self.apply(e, f, args, kw, mod, cls, env, depth, c, star)
    return out

  def apply(self, e, f, args, kw, mod, cls, env, depth, c, star):
    R = lambda v: [(c, v)]
    if isinstance(f, ast.Name) and isinstance(env.get(f.id), Sym) and env[f.id].cls is None and getattr(env[f.id], 'ref', None):
      # a local alias of a module function or class
      f = ast.Name(id=env[f.id].ref, ctx=ast.Load())
      env = {}
    if isinstance(f, ast.Name):
      n = f.id
      if n == 'str' and len(args) == 1:
        return R(self.to_text(args[0]))
      if n == 'len' and len(args) == 1:
        if isinstance(args[0], Lst) and not any(is_text(x) and any(isinstance(p, Hole) and p.name.startswith('loop:') for p in x) for x in args[0].elts):
          return R(len(args[0].elts))
        return R((Hole('len(%s)' % show_any(args[0]), call='len', args=args),))
      if n == 'list' and len(args) == 1 and isinstance(args[0], Lst):
        return R(args[0])
      if n == 'range' and all(isinstance(x, int) for x in args) and args and len(range(*args)) < 64:
        return R(Lst(list(range(*args))))
      if n == 'zip' and args and all(isinstance(x, Lst) for x in args):
        return R(Lst([Lst(list(x)) for x in zip(*[y.elts for y in args])]))
      if n == 'reversed' and len(args) == 1 and isinstance(args[0], Lst):
        return R(Lst(args[0].elts[::-1]))
      if n == 'enumerate' and isinstance(args[0], Lst):
        return R(Lst([Lst([i, x]) for i, x in enumerate(args[0].elts)]))
      if n == 'enumerate':
        return R(Sym('enumerate(%s)' % show_any(args[0])))
      r = self.prog.resolve_func(mod, f)
      if r and n not in env and n not in self.opaque and not star:
        res = []
        for c2, v in self.call(r[0], None, r[1], args, kw, depth + 1):
          res += merge(c, c2, v)
        return res
      k = self.prog.resolve_class(mod, f)
      if k is None and n == 'cls' and cls is not None:
        k = cls
      if k is None:
        return R(self.opq(n, None, args, kw))
      obj = Sym('%s(%s)' % (n, ', '.join([show_any(a) for a in args] + ['%s=%s' % (x, show_any(y)) for x, y in kw.items()])), k)
      obj.args, obj.kw = args, kw
      return R(obj)
    if isinstance(f, ast.Attribute):
      # str methods on known text
      res = []
      for c1, v in self.expr(f.value, mod, cls, env, depth, c):
        if is_text(v) and f.attr == 'join' and len(args) == 1:
          if isinstance(args[0], Lst):
            t = ()
            for i, x in enumerate(args[0].elts):
              t = text(t, v if i else '', self.to_text(x))
            res.append((c1, t))
            continue
          res.append((c1, (Hole('join(%s)' % show_any(args[0]), call='join', recv=v, args=args),)))
          continue
        if is_text(v) and f.attr == 'format' and all(isinstance(p, str) for p in v):
          res.append((c1, self.fmt(''.join(v), args, kw)))
          continue
        if is_text(v) and v and isinstance(v[0], str) and f.attr in ('strip', 'lstrip', 'rstrip', 'replace', 'lower', 'upper'):
          if all(isinstance(p, str) for p in v) and all(is_text(a) and all(isinstance(p, str) for p in a) for a in args):
            s = getattr(''.join(v), f.attr)(*[''.join(a) for a in args])
            res.append((c1, (s,) if s else ()))
            continue
        if isinstance(v, Sym) and v.cls is not None:
          owner, m = v.cls.find(f.attr)
          if m is not None and f.attr not in self.opaque and not is_abstract(m) and not star:
            static = any(isinstance(d, ast.Name) and d.id == 'staticmethod' for d in m.decorator_list)
            for c2, r in self.call(owner.mod, v.cls, m, ([] if static else [v]) + args, kw, depth + 1):
              res += merge(c1, c2, r)
            continue
        r = self.prog.resolve_func(mod, f) if not isinstance(v, Sym) or v.cls is None else None
        if r and f.attr not in self.opaque and not star:
          for c2, x in self.call(r[0], None, r[1], args, kw, depth + 1):
            res += merge(c1, c2, x)
          continue
        res.append((c1, self.opq(f.attr, v, args, kw)))
      return res
    return R((Hole(ast.unparse(e)),))

  def opq(self, name, recv, args, kw):
    r = '' if recv is None else show_any(recv) + '.'
    if isinstance(recv, Sym):
      r = recv.name + '.'
    full = '%s%s(%s)' % (r, name, ', '.join([show_any(a) for a in args] + ['%s=%s' % (k, show_any(v)) for k, v in sorted(kw.items())]))
    return (Hole(full, call=name, recv=recv, args=args, kw=kw),)


def const_int(e):
  try:
    v = ast.literal_eval(e)
  except (ValueError, TypeError):
    return None
  return v if isinstance(v, int) and not isinstance(v, bool) else None


class _No:
  pass


NOCONST = _No()


def const_of(v):
  if is_text(v):
    if all(isinstance(p, str) for p in v):
      return ''.join(v)
    return NOCONST
  if isinstance(v, (bool, int)) or v is None:
    return v
  return NOCONST


def show_any(v):
  if is_text(v):
    return show(v) if v else "''"
  if isinstance(v, Sym):
    return v.name
  if isinstance(v, Lst):
    return '[%s]' % ', '.join(show_any(x) for x in v.elts)
  return repr(v)


def merge(c, c2, v):
  """Joins two condition lists; contradictory combinations are dropped."""
  d = dict(c)
  out = list(c)
  for k, t in c2:
    if k in d:
      if d[k] != t:
        return []
    else:
      d[k] = t
      out.append((k, t))
  return [(tuple(out), v)]


def is_abstract(m):
  return any(ast.unparse(d).endswith('abstractmethod') for d in m.decorator_list)


def as_load(t):
  import copy
  t = copy.deepcopy(t)
  for n in ast.walk(t):
    if hasattr(n, 'ctx'):
      n.ctx = ast.Load()
  return t
