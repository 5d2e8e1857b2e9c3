"""Syntax-tree facts about the Python code generators of the repository."""
import ast
import os
import re

import facts

ROOTS = ['arolla/codegen']


class Module:

  def __init__(self, path, rel):
    self.path, self.rel = path, rel
    self.name = rel[:-3].replace('/', '.')
    with open(path) as f:
      self.tree = ast.parse(f.read(), rel)
    self.funcs, self.classes, self.imports, self.assigns = {}, {}, {}, {}
    for n in self.tree.body:
      if isinstance(n, ast.FunctionDef):
        self.funcs[n.name] = n
      elif isinstance(n, ast.ClassDef):
        self.classes[n.name] = Class(self, n)
      elif isinstance(n, ast.Import):
        for a in n.names:
          self.imports[a.asname or a.name] = a.name
      elif isinstance(n, ast.ImportFrom):
        for a in n.names:
          self.imports[a.asname or a.name] = '%s.%s' % (n.module, a.name)
      elif isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
        self.assigns[n.targets[0].id] = n.value
      elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and n.value is not None:
        self.assigns[n.target.id] = n.value


class Class:

  def __init__(self, mod, node):
    self.mod, self.node, self.name = mod, node, node.name
    self.methods = {m.name: m for m in node.body if isinstance(m, ast.FunctionDef)}
    self.fields = [(m.target.id, m) for m in node.body if isinstance(m, ast.AnnAssign) and isinstance(m.target, ast.Name)]
    self.bases = []  # resolved later

  def is_property(self, m):
    return any(isinstance(d, ast.Name) and d.id in ('property', 'cached_property') or isinstance(d, ast.Attribute) and d.attr in ('cached_property', 'abstractproperty')
               for d in m.decorator_list)

  def dataclass(self):
    """None, or the keyword arguments of the dataclass decorator."""
    for d in self.node.decorator_list:
      f = d.func if isinstance(d, ast.Call) else d
      if isinstance(f, ast.Attribute) and f.attr == 'dataclass' or isinstance(f, ast.Name) and f.id == 'dataclass':
        return {k.arg: getattr(k.value, 'value', None) for k in d.keywords} if isinstance(d, ast.Call) else {}
    return None

  def mro(self):
    out, todo = [], [self]
    while todo:
      c = todo.pop(0)
      if c not in out:
        out.append(c)
        todo += c.bases
    return out

  def find(self, name):
    for c in self.mro():
      if name in c.methods:
        return c, c.methods[name]
    return None, None


class Program:

  def __init__(self, skip=('_test.py',)):
    self.mods = {}
    for root in ROOTS:
      for d, dirs, fs in os.walk(os.path.join(facts.REPO, root)):
        dirs[:] = sorted(x for x in dirs if x not in ('testing', 'examples', 'testdata', '__pycache__'))
        for f in sorted(fs):
          if f.endswith('.py') and not f.endswith(skip) and not f.startswith('test_'):
            p = os.path.join(d, f)
            m = Module(p, os.path.relpath(p, facts.REPO))
            self.mods[m.name] = m
    for m in self.mods.values():
      for c in m.classes.values():
        for b in c.node.bases:
          r = self.resolve_class(m, b)
          if r:
            c.bases.append(r)

  def resolve(self, m, e):
    """Dotted expression -> (module, name) of a program entity."""
    if isinstance(e, ast.Name):
      if e.id in m.classes or e.id in m.funcs or e.id in m.assigns:
        return m, e.id
      full = m.imports.get(e.id)
      if full and '.' in full:
        mod, nm = full.rsplit('.', 1)
        if mod in self.mods:
          return self.mods[mod], nm
      return None
    if isinstance(e, ast.Attribute):
      s = ast.unparse(e.value)
      full = m.imports.get(s, s)
      if full in self.mods:
        return self.mods[full], e.attr
    return None

  def resolve_class(self, m, e):
    r = self.resolve(m, e)
    return r[0].classes.get(r[1]) if r else None

  def resolve_func(self, m, e):
    r = self.resolve(m, e)
    return (r[0], r[0].funcs[r[1]]) if r and r[1] in r[0].funcs else None

  def classes(self):
    for m in self.mods.values():
      yield from m.classes.values()


def templates():
  """Jinja templates of the generators: [(rel, text)]."""
  out = []
  for root in ROOTS:
    for d, dirs, fs in os.walk(os.path.join(facts.REPO, root)):
      dirs[:] = sorted(x for x in dirs if x not in ('testing', 'examples'))
      for f in sorted(fs):
        if f.endswith('.jinja2') and not f.startswith('test_'):
          p = os.path.join(d, f)
          with open(p) as h:
            out.append((os.path.relpath(p, facts.REPO), h.read()))
  return out
