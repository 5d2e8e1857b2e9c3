"""Objects of the code generators that compare equal are interchangeable."""
import ast
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import pyan
import pyeq
import report

RULE = ('for every generator class with a comparison: the attributes equality implies (intersection over all paths of __eq__ that can return '
        'true, closed under the constructor assignments they determine) must contain every attribute its behaviour reads, everything '
        '__hash__ reads, and the class itself where several implementations share an interface; __lt__ must order by the same facts')


def attrs_read(m, sel='self'):
  return [n for n in ast.walk(m) if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == sel and isinstance(n.ctx, ast.Load)]


def one(c, prog, cls):
  where = '%s:%d' % (cls.mod.rel, cls.node.lineno)
  dc = cls.dataclass()
  owner, eq = cls.find('__eq__')
  own_dc = dc is not None and dc.get('eq', True) is not False and '__eq__' not in cls.methods
  if eq is None and not own_dc:
    return False
  if eq is not None and any(isinstance(d, (ast.Attribute, ast.Name)) and ast.unparse(d).endswith('abstractmethod') for d in eq.decorator_list) and not own_dc:
    return False
  e = pyeq.Eq(prog, cls)
  if own_dc:
    facts = {'isinstance:' + cls.name}
    for k in cls.mro():
      if k.dataclass() is None:
        continue
      for n, a in k.fields:
        v = a.value
        if isinstance(v, ast.Call) and any(x.arg == 'compare' and isinstance(x.value, ast.Constant) and x.value.value is False for x in v.keywords):
          continue
        facts.add(n)
    facts = frozenset(facts)
  else:
    try:
      facts = e.implied()
    except pyeq.Unknown as u:
      c.undecided(where, '%s.__eq__: %s' % (cls.name, u))
      return True
  if facts is pyeq.TOP:
    c.bad(where, '%s.__eq__ never reports equality' % cls.name)
    return True
  det = pyeq.Determined(prog, cls, facts)
  obs = pyeq.observed(cls)
  data = det.all
  # public data attributes are observable directly
  for a in data:
    if not a.startswith('_'):
      obs.setdefault(a, 'public attribute')
  for a, by in sorted(obs.items()):
    if a not in data:
      continue   # class constants, methods
    if a in det.known:
      c.ok('%s.%s (read by %s) is fixed by __eq__' % (cls.name, a, by))
    else:
      c.bad(where, '%s objects that compare equal can differ in `%s` (%s)' % (cls.name, a, by if by == 'public attribute' else 'used by ' + by),
            key='%s|%s|%s' % (cls.mod.rel, cls.name, a))
  # class discrimination inside an interface with several implementations
  sib = [k for k in prog.classes() if k is not cls and set(k.bases) & set(cls.bases) and k.bases]
  if sib and cls.bases:
    names = {x.split(':', 1)[1] for x in facts if x.startswith('isinstance:')}
    if cls.name in names:
      c.ok('%s compares its class' % cls.name)
    elif names and not own_dc and '__eq__' not in cls.methods:
      c.ok()
    else:
      c.bad(where, '%s.__eq__ does not check that the other object is a %s: a different access with the same parts compares equal' % (cls.name, cls.name))
  # hash
  ho, h = cls.find('__hash__')
  if h is not None and '__hash__' in (cls.methods or {}) or (h is not None and eq is not None and owner in ho.mro()):
    for n in attrs_read(h, h.args.args[0].arg):
      p = cls.find(n.attr)[1]
      fx = {n.attr} if p is None else {n.attr} | e.value_facts(cls.find(n.attr)[0], p)
      if n.attr in det.known or (fx & data) and (fx & data) <= det.known:
        c.ok('%s.__hash__ reads %s' % (cls.name, n.attr))
      else:
        c.bad('%s:%d' % (cls.mod.rel, h.lineno), '%s.__hash__ uses `%s`, which equality does not fix: equal objects get different hashes' % (cls.name, n.attr))
    for n in ast.walk(h):
      if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'id':
        c.bad('%s:%d' % (cls.mod.rel, h.lineno), '%s.__hash__ uses the identity of an object' % cls.name)
  # order
  lo, lt = cls.find('__lt__')
  if lt is not None and len(lt.args.args) == 2:
    rets = [s for s in ast.walk(lt) if isinstance(s, ast.Return)]
    facts_lt = None
    if len(rets) == 1 and isinstance(rets[0].value, ast.Compare) and len(rets[0].value.ops) == 1:
      cmpx = rets[0].value
      env = {'names': {lt.args.args[0].arg: 'self', lt.args.args[1].arg: 'other'}, 'vals': {}, 'owner': lo, 'depth': 0}
      for s in lt.body:
        if isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Name):
          env['vals'][s.targets[0].id] = s.value
      facts_lt = e.same(cmpx.left, cmpx.comparators[0], env)
      if facts_lt is not None and not isinstance(cmpx.ops[0], (ast.Lt, ast.Gt)):
        c.bad('%s:%d' % (cls.mod.rel, lt.lineno), '%s.__lt__ is not a strict order' % cls.name)
        return True
    if facts_lt is None:
      c.undecided('%s:%d' % (cls.mod.rel, lt.lineno), '%s.__lt__ is not a comparison of one value' % cls.name)
    else:
      dl = pyeq.Determined(prog, cls, facts_lt)
      missing = [a for a in data if a in det.known and a not in dl.known]
      if missing:
        c.bad('%s:%d' % (cls.mod.rel, lt.lineno), '%s.__lt__ does not order objects that differ in `%s`: the sorted order is not determined' % (cls.name, missing[0]))
      else:
        c.ok('%s.__lt__ orders by all compared attributes' % cls.name)
  return True


def run(c):
  prog = pyan.Program()
  n = 0
  for cls in prog.classes():
    if one(c, prog, cls):
      n += 1
  c.count('classes with equality', n)
  c.need(n >= 8, 'classes with __eq__ in the generators')


report.main('G02', RULE, run)
