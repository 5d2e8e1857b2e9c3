"""Presence tests, reads, writes and table paths generated for one path element refer to the same thing."""
import ast
import os
import re
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import pyan
import pystr
import report

RULE = ('abstract evaluation (string templates with holes) of every method of every path-element class: the emitted read decides the kind of '
        'access; the emitted presence test, write, mutable access, continuation rule, table path and canonical element must be the ones of '
        'that kind over the same field, key and variable holes')

V = '<var_name>'


def norm(t):
  t = re.sub(r'\s+', '', t)
  # parentheses around a whole expression do not matter
  while t.startswith('(') and t.endswith(')') and balanced(t[1:-1]) and not t.startswith('(&') and not t.startswith('(*('):
    t = t[1:-1]
  return t


def balanced(t):
  d = 0
  for ch in t:
    d += ch == '('
    d -= ch == ')'
    if d < 0:
      return False
  return d == 0


H = r'(<self\.\w+>|<_cpp_getter_name\(.*?\)>)'
KINDS = [
    ('field', re.compile(r'^<var_name>\.(?P<g>%s)\(\)$' % H)),
    ('pointer', re.compile(r'^\(?\*\(?<var_name>\)?\)?$')),
    ('address', re.compile(r'^\(?&\(?<var_name>\)?\)?$')),
    ('member', re.compile(r'^<var_name>\.(?P<g>%s)$' % H)),
    ('index', re.compile(r'^<var_name>\.(?P<g>%s)\((?P<k>[^()]+)\)$' % H)),
    ('map', re.compile(r'^<var_name>\.(?P<g>%s)\(\)\.at\((?P<k>.+)\)$' % H)),
    ('extension', re.compile(r'^<var_name>\.GetExtension\((?P<g>.+)\)$')),
    ('size', re.compile(r'^<var_name>(?P<g><self\.\w+\.access_for_size>)$')),
]


def expected(kind, g, k):
  """{method: set of accepted texts}; 'Raised' = not available."""
  val = '<value>'
  if kind == 'field':
    return {'has_access': {'AROLLA_PROTO3_COMPATIBLE_HAS(%s,%s)' % (V, g)},
            'set_value_access': {'%s.set_%s(%s)' % (V, g, val)},
            'mutable_access': {'*%s.mutable_%s()' % (V, g)}}
  if kind == 'pointer':
    deref = {'(*(%s))' % V, '*(%s)' % V, '*' + V, '(*%s)' % V}
    return {'has_access': {V + '!=nullptr', 'nullptr!=' + V, '(%s)!=nullptr' % V},
            'set_value_access': {d + '=' + val for d in deref}, 'mutable_access': deref}
  if kind == 'address':
    return {'has_access': {'true'}, 'set_value_access': {'Raised'}, 'mutable_access': {'Raised'}}
  if kind == 'member':
    return {'has_access': {'true'}, 'set_value_access': {'%s.%s=%s' % (V, g, val)}, 'mutable_access': {'%s.%s' % (V, g)}}
  if kind == 'index':
    return {'has_access': {'%s.%s().size()>%s' % (V, g, k), '%s<%s.%s().size()' % (k, V, g), '%s.%s_size()>%s' % (V, g, k), '%s<%s.%s_size()' % (k, V, g)},
            'set_value_access': {'%s.set_%s(%s,%s)' % (V, g, k, val)},
            'mutable_access': {'%s.mutable_%s()->at(%s)' % (V, g, k), '*%s.mutable_%s(%s)' % (V, g, k)}}
  if kind == 'map':
    m = '%s.%s()' % (V, g)
    return {'has_access': {'%s.count(%s)>0' % (m, k), '%s.count(%s)!=0' % (m, k), '%s.count(%s)==1' % (m, k), '%s.contains(%s)' % (m, k), '%s.find(%s)!=%s.end()' % (m, k, m)},
            'set_value_access': {'(*%s.mutable_%s())[%s]=%s' % (V, g, k, val)},
            'mutable_access': {'(*%s.mutable_%s())[%s]' % (V, g, k)}}
  if kind == 'extension':
    return {'has_access': {'%s.HasExtension(%s)' % (V, g)}, 'set_value_access': {'%s.SetExtension(%s,%s)' % (V, g, val)},
            'mutable_access': {'*%s.MutableExtension(%s)' % (V, g)}}
  return {'has_access': {'true'}, 'set_value_access': {'<%s.resize(var_name,value)>' % re.sub(r'\.access_for_size>$', '>', g), },
          'mutable_access': {'Raised'}}


# kind -> may the generated code go on without testing presence: (mutable access, const access)
CONTINUE = {'field': (True, False), 'pointer': (False, False), 'address': (True, True), 'member': (True, True), 'index': (False, False),
            'map': (True, False), 'extension': (True, 'not final'), 'size': (True, True)}


class Cls:

  def __init__(self, c, prog, mod, cls):
    self.c, self.prog, self.mod, self.cls = c, prog, mod, cls

  def ev(self, name, opaque=()):
    o, m = self.cls.find(name)
    if m is None or pystr.is_abstract(m):
      return None, None
    args = [pystr.Sym('self', self.cls)] + [pystr.Sym(a.arg) for a in m.args.args[1:]]
    ev = pystr.Ev(self.prog, opaque=list(opaque) + [NAMER])
    try:
      return m, [(k, pystr.show_any(v)) for k, v in ev.call(o.mod, self.cls, m, args, {a.arg: pystr.Sym(a.arg) for a in m.args.kwonlyargs})]
    except pystr.Unsupported as u:
      self.c.undecided('%s:%d' % (o.mod.rel, m.lineno), '%s.%s: %s' % (self.cls.name, name, u))
      return m, None

  def ctor(self):
    o, m = self.cls.find('__init__')
    if m is None:
      return []
    ev = pystr.Ev(self.prog, opaque=['is_this_type', NAMER])
    args = [pystr.Sym('self', self.cls)] + [pystr.Sym(a.arg) for a in m.args.args[1:]]
    env = {a.arg: v for a, v in zip(m.args.args, args)}
    try:
      return [(conds, {k[5:]: pystr.show_any(v) for k, v in e.items() if k.startswith('self.')})
              for conds, e, r in ev.block(m.body, o.mod, self.cls, [((), env, None)], 0) if r is None]
    except pystr.Unsupported as u:
      self.c.undecided('%s:%d' % (o.mod.rel, m.lineno), '%s.__init__: %s' % (self.cls.name, u))
      return None


NAMER = '_cpp_getter_name'
EL = r'[\s(<]'


def single(c, prog, mod, cls):
  k = Cls(c, prog, mod, cls)
  m, acc = k.ev('access')
  if acc is None:
    return False
  where = '%s:%d' % (mod.rel, cls.node.lineno)
  if len(acc) != 1:
    c.bad(where, '%s.access emits different reads depending on %s' % (cls.name, acc[0][0][:1]))
    return True
  a = norm(acc[0][1])
  kind = g = key = None
  for nm, rx in KINDS:
    mm = rx.match(a)
    if mm:
      kind, g, key = nm, mm.groupdict().get('g'), mm.groupdict().get('k')
      break
  if kind is None:
    c.bad('%s:%d' % (mod.rel, m.lineno), '%s.access emits `%s`, which is no read of the variable it is given' % (cls.name, acc[0][1]))
    return True
  c.count(kind)
  c.ok('%s reads %s (%s access)' % (cls.name, acc[0][1], kind))
  for name, accepted in expected(kind, g, key).items():
    m, r = k.ev(name)
    if r is None:
      continue
    for conds, t in r:
      if norm(t) in accepted:
        c.ok('%s.%s = %s' % (cls.name, name, t))
      else:
        c.bad('%s:%d' % (mod.rel, m.lineno), '%s reads `%s` but its %s is `%s`%s; expected `%s`' % (
            cls.name, acc[0][1], name, t, ' when ' + repr(conds) if conds else '', sorted(accepted)[0]))
  # continuation
  m, r = k.ev('can_continue_on_miss')
  if r is not None:
    mut, const = CONTINUE[kind]
    table = {}
    for mutable in (True, False):
      for final in (True, False):
        for conds, t in r:
          feas = True
          for ck, cv in conds:
            if ck == 'is_mutable':
              feas &= cv == mutable
            elif re.match(r'^<?self\.\w*final\w*>?$', ck):
              feas &= cv == final
            else:
              feas = None
              break
          if feas is None:
            c.undecided('%s:%d' % (mod.rel, m.lineno), 'condition %s' % conds[0][0])
            return True
          if feas:
            table[mutable, final] = {'is_mutable': mutable, 'True': True, 'False': False, 'notis_mutable': not mutable}.get(
                norm(t), {'<notis_mutable>': not mutable}.get(norm(t)))
            if re.match(r'^<?(not )?self\.\w*final\w*>?$', t):
              table[mutable, final] = final != t.lstrip('<').startswith('not ')
    for (mutable, final), got in sorted(table.items()):
      want = mut if mutable else ((not final) if const == 'not final' else const)
      if got is None:
        c.undecided('%s:%d' % (mod.rel, m.lineno), '%s.can_continue_on_miss' % cls.name)
      elif got and not want:
        c.bad('%s:%d' % (mod.rel, m.lineno), '%s.can_continue_on_miss(is_mutable=%s)%s skips the presence test of a %s access: a missing value is read as present' % (
            cls.name, mutable, ' on the final element' if final else '', kind))
      elif want and not got and kind in ('field', 'map', 'extension') and mutable:
        c.bad('%s:%d' % (mod.rel, m.lineno), '%s.can_continue_on_miss(is_mutable=True) stops at a missing value instead of creating it: writes are lost' % cls.name)
      else:
        c.ok('%s can_continue_on_miss(is_mutable=%s%s) = %s' % (cls.name, mutable, ', final' if final else '', got))
  states = k.ctor()
  if states is None:
    return True
  for conds, at in states:
    ga = re.match(r'^<self\.(\w+)>$', g or '')
    el = at.get('_element')
    if kind in ('field', 'member', 'index', 'map'):
      src = at.get(ga.group(1)) if ga else g
      mm = re.match(r'^<%s\((.*)\)>$' % NAMER, src or '')
      el = mm.group(1) if mm else None
    elif kind == 'extension':
      eg = at.get(re.sub(r'^::<self\.(\w+)>$', r'\1', g), '')
      mm = re.match(r'^<(.*)\.replace\(\., ::\)>$', eg)
      el = mm.group(1) if mm else None
      if el is None:
        c.bad(where, '%s names the extension by `%s`, which is not the qualified name with `::` for `.`' % (cls.name, eg or g))
    paths(k, kind, at, el, key, where)
    canonical(k, kind, at, el, key, where)
  return True


def subst(t, at):
  """Attribute holes replaced by their constructor values."""
  for _ in range(4):
    t2 = re.sub(r'<self\.(\w+)>', lambda m: at.get(m.group(1), m.group(0)), t)
    t2 = t2.replace('<<', '<').replace('>>', '>') if False else t2
    if t2 == t:
      break
    t = t2
  return t


def paths(k, kind, at, el, key, where):
  c, cls = k.c, k.cls
  for name, fn in (('child_table_path', 'Child'), ('child_column_path', 'Column')):
    m, r = k.ev(name)
    if r is None:
      continue
    for _, t in r:
      w = '%s:%d' % (k.mod.rel, m.lineno)
      if kind in ('pointer', 'address'):
        if 'root' in t and not re.search(r'Child\(|Size\(', t):
          c.ok()
        else:
          c.bad(w, '%s.%s changes the path although the element names no field' % (cls.name, name))
        continue
      if kind == 'size':
        if name == 'child_table_path':
          continue
        if 'size_column_path(root)' in t or re.search(r'Size\(', t):
          c.ok('%s.%s = %s' % (cls.name, name, t))
        else:
          c.bad(w, '%s.%s is `%s`, not a size column' % (cls.name, name, t))
        continue
      mm = re.match(r'^<root\.(\w+)\((.*)\)>$', t)
      arg = subst(mm.group(2), at) if mm else ''
      if not mm or mm.group(1) != fn:
        c.bad(w, '%s.%s is `%s`, not root.%s(...)' % (cls.name, name, t, fn))
        continue
      want = [el]
      ok = el is not None and arg.startswith(('Ext::' if kind == 'extension' else '') + el)
      rest = arg[len(('Ext::' if kind == 'extension' else '') + (el or '')):]
      if ok and kind in ('field', 'member', 'extension'):
        ok = rest == ''
      elif ok:
        kv = subst(key, at).strip()
        mm2 = re.match(r'^\[(.*)\]$', rest)
        inner = mm2.group(1) if mm2 else None
        plain = re.sub(r'^<int\((.*)\)>$', r'\1', inner or '')
        wild = any('Eq *>' in ck and cv for ck, cv in ()) or at.get('_is_wildcard') == 'True'
        ok = inner is not None and (plain == kv or (kind == 'map' and (inner == kv or (wild and inner == '"%s"'))))
      if ok:
        c.ok('%s.%s = %s' % (cls.name, name, t))
      else:
        c.bad(w, '%s.%s names the column `%s`, which does not identify the field%s the element reads' % (cls.name, name, arg, ' and key' if key else ''))
  if kind == 'index':
    kv = subst(key, at)
    mm = re.search(r'\[([^\]\[]*:[^\]\[]*)\]>$', kv)
    if mm and mm.group(1) not in (':-1', '1:-1'):
      c.bad(where, '%s: the index is `%s`, which drops characters of the number' % (cls.name, kv))
    else:
      c.ok('%s takes the whole number between the brackets' % cls.name)
  if kind == 'map':
    kv = subst(key, at)
    wild = at.get('_is_wildcard')
    if wild == 'True':
      if PARAM and kv == PARAM[0]:
        c.ok('a wildcard key is the parameter of the generated lambda')
      else:
        c.bad(where, '%s: a wildcard access uses the key `%s`; the generated lambda calls its parameter %s' % (cls.name, kv, PARAM))
    elif re.match(r'^"[^"]*"$', kv):
      c.ok('a literal key is quoted')
    else:
      c.bad(where, '%s: a literal key is emitted as %s, not as a string literal' % (cls.name, kv))


PARAM = []


def canonical(k, kind, at, el, key, where):
  """The canonical text of the element names the same field and key with the delimiters the constructor strips."""
  c, cls = k.c, k.cls
  m, r = k.ev('protopath_element')
  if r is None:
    return
  w = '%s:%d' % (k.mod.rel, m.lineno)
  for conds, t in r:
    wild = at.get('_is_wildcard')
    if wild is not None and any(('_is_wildcard' in ck) and str(cv) != wild for ck, cv in conds):
      continue
    full = subst(t, at)
    if kind in ('pointer', 'address'):
      want = {'pointer': '*', 'address': '&'}[kind]
      good = full == want
    elif kind == 'size':
      good = full.startswith('count(') and full.endswith(')') and 'protopath_element' in full
    elif kind in ('index', 'map'):
      kv = subst(key, at) if wild != 'True' else '*'
      want = '%s[%s]' % (el, kv)
      good = full == want
    else:
      good, want = affix(full, el, cls)
    if good:
      c.ok('%s is written back as %s' % (cls.name, t))
    else:
      c.bad(w, '%s.protopath_element returns `%s`, which is parsed as a different element' % (cls.name, full))


def affix(full, el, cls):
  """A slice of the path with a constant affix is written back with exactly that affix."""
  if el is None:
    return False, ''
  m = re.match(r"^path_element(?:\[(?:len\((.+?)\))?:(?:-len\((.+?)\))?\])?$", el)
  if not m:
    return el in full, el
  def lit(x):
    if x is None:
      return ''
    mm = re.match(r"^'(.*)'$", x)
    if mm:
      return mm.group(1)
    mm = re.match(r'^(?:self|cls)\.(\w+)$', x)
    if mm:
      for kk in cls.mro():
        for n in kk.node.body:
          if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == mm.group(1) for t in n.targets) and isinstance(n.value, ast.Constant):
            return n.value.value
    return None
  pre, post = lit(m.group(1)), lit(m.group(2))
  if pre is None or post is None:
    return el in full, el
  return full == pre + el + post, pre + el + post


def multi(c, prog, mod, cls):
  k = Cls(c, prog, mod, cls)
  m, cont = k.ev('iteration_container')
  m2, size = k.ev('access_for_size')
  if cont is None or size is None or not size:
    return False
  where = '%s:%d' % (mod.rel, cls.node.lineno)
  cm = [norm(t) for conds, t in cont if ('is_mutable', False) not in conds]
  cc = [norm(t) for conds, t in cont if ('is_mutable', True) not in conds]
  s = norm(size[0][1])
  mt, typ = k.ev('access_for_type')
  mp, post = k.ev('iteration_post_processing')
  states = k.ctor() or []
  at = states[0][1] if states else {}
  c.count('repeated')
  ok = lambda what: c.ok(what)
  if s == '.size()':
    # the input itself
    for t in cm + cc:
      if t == '<input_name>' or t == 'input_name':
        ok('%s iterates over the input itself' % cls.name)
      else:
        c.bad('%s:%d' % (mod.rel, m.lineno), '%s has the size of the input but iterates over `%s`' % (cls.name, t))
    el, g = '', None
  else:
    mm = re.match(r'^\.(%s)\(\)\.size\(\)$' % H, s) or re.match(r'^\.(%s)_size\(\)$' % H, s)
    if not mm:
      c.bad('%s:%d' % (mod.rel, m2.lineno), '%s.access_for_size is `%s`, no size of a repeated field or map' % (cls.name, s))
      return True
    g = mm.group(1)
    src = at.get(re.sub(r'^<self\.(\w+)>$', r'\1', g), g)
    mm = re.match(r'^<%s\((.*)\)>$' % NAMER, src)
    el = mm.group(1) if mm else None
    const_forms = {'<input_name>.%s()' % g: 'elements', '::arolla::SortedMapKeys(<input_name>.%s())' % g: 'keys'}
    kinds = set()
    for t in cc:
      if t in const_forms:
        kinds.add(const_forms[t])
        ok('%s iterates over %s' % (cls.name, t))
      else:
        c.bad('%s:%d' % (mod.rel, m.lineno), '%s counts `%s` but iterates over `%s`: sizes and values disagree, or the order of a map is used' % (cls.name, s, t))
    ptexts = [norm(t) for _, t in post or []]
    values = any(t not in ("''", '') for t in ptexts)
    for t in cm:
      if t == 'Raised' or t == '*<input_name>.mutable_%s()' % g or (t in const_forms and const_forms[t] == 'keys' and values):
        ok('%s mutable iteration over %s' % (cls.name, t))
      else:
        c.bad('%s:%d' % (mod.rel, m.lineno), '%s counts `%s` but iterates for writing over `%s`' % (cls.name, s, t))
    if values:
      for conds, t in post:
        mut = dict(conds).get('is_mutable')
        want = {True: {'<input_name>.mutable_%s()->at(<loop_var>)' % g, '(*<input_name>.mutable_%s())[<loop_var>]' % g, '<input_name>.mutable_%s()->at(loop_var)' % g},
                False: {'<input_name>.%s().at(<loop_var>)' % g}}
        acc = want[mut] if mut is not None else set()
        if norm(t) in acc and 'keys' in kinds:
          ok('%s looks its values up by key' % cls.name)
        else:
          c.bad('%s:%d' % (mod.rel, mp.lineno), '%s iterates over keys but reads `%s`%s' % (cls.name, t, ' for writing' if mut else ''))
    want_type = {'elements': {'<var_name>.%s(0)' % g, '*<var_name>.%s().begin()' % g},
                 'keys': {'<var_name>.%s().begin()->%s' % (g, 'second' if values else 'first')}}
    for kd in kinds:
      for _, t in typ or []:
        if norm(t) in want_type[kd]:
          ok('%s element type from %s' % (cls.name, t))
        else:
          c.bad('%s:%d' % (mod.rel, mt.lineno), '%s iterates over %s but deduces the element type from `%s`' % (cls.name, 'map values' if values else kd, t))
    mr, rs = k.ev('resize')
    for _, t in rs or []:
      if t == 'Raised':
        if 'keys' in kinds:
          ok('%s cannot be resized' % cls.name)
        else:
          c.bad('%s:%d' % (mod.rel, mr.lineno), '%s.resize is not available' % cls.name)
      elif norm(t) == '::arolla::codegen::io::ResizeRepeatedProtoField(<var_name>.mutable_%s(),<size>)' % g:
        ok('%s.resize = %s' % (cls.name, t))
      else:
        c.bad('%s:%d' % (mod.rel, mr.lineno), '%s.resize emits `%s`: not a resize of the iterated field' % (cls.name, t))
    # table paths
    mc, ch = k.ev('child_table_path')
    for _, t in ch or []:
      full = subst(t, at)
      base = '<root.Child(%s)>' % el
      want = base if 'elements' in kinds else ('<%s.MapValues()>' if values else '<%s.MapKeys()>') % base
      if full == want:
        ok('%s.child_table_path = %s' % (cls.name, t))
      else:
        c.bad('%s:%d' % (mod.rel, mc.lineno), '%s.child_table_path is `%s`; values it reads belong to `%s`' % (cls.name, full, want))
    ms, sz = k.ev('size_column_path')
    for _, t in sz or []:
      if t == 'Raised' or subst(t, at) == '<root.Size(%s)>' % el:
        ok('%s.size_column_path = %s' % (cls.name, t))
      else:
        c.bad('%s:%d' % (mod.rel, ms.lineno), '%s.size_column_path is `%s`, not the size of %s' % (cls.name, subst(t, at), el))
  # declared support for writing agrees with the mutable iteration
  msup, sup = k.ev('support_mutable')
  for _, t in sup or []:
    real = 'Raised' not in cm
    if (t == 'True') == real:
      ok('%s.support_mutable = %s' % (cls.name, t))
    else:
      c.bad('%s:%d' % (mod.rel, msup.lineno), '%s.support_mutable is %s but its mutable iteration is %savailable' % (cls.name, t, '' if real else 'not '))
  # loop header
  mo, lo = k.ev('open_loop')
  for conds, t in lo or []:
    if t == 'Raised':
      continue
    mut = dict(conds).get('is_mutable')
    n = norm(t)
    cont_t = ([norm(x) for cd, x in cont if dict(cd).get('is_mutable', mut) == mut] or [None])[0]
    cont_t = '<input_name>' if cont_t == 'input_name' else cont_t
    pt = ([norm(x) for cd, x in post or [] if dict(cd).get('is_mutable', mut) == mut] or [''])[0]
    q = 'auto&' if mut else 'constauto&'
    if pt in ("''", ''):
      want = 'for(%s<loop_var>:%s){' % (q, cont_t)
    else:
      want = None
      head = 'for(%s<loop_var>_key:%s){' % (q, cont_t)
      tail = '%s<loop_var>=%s;' % (q, pt.replace('<loop_var>', '<loop_var>_key').replace('(loop_var)', '(<loop_var>_key)'))
      if n in (head + tail, head.replace('auto&', 'auto&') + tail):
        want = n
      else:
        want = head + tail
    if n.replace('constauto&<loop_var>_key', 'auto&<loop_var>_key') == want.replace('constauto&<loop_var>_key', 'auto&<loop_var>_key'):
      ok('%s.open_loop binds the element' % cls.name)
    else:
      c.bad('%s:%d' % (mod.rel, mo.lineno), '%s.open_loop emits `%s`: not a loop binding %s over %s' % (cls.name, t[:120], 'a value' if pt else 'an element', cont_t))
  mce, ce = k.ev('protopath_element')
  for _, t in ce or []:
    full = subst(t, at)
    good = affix(full, el, cls)[0] if el else full == '[:]'
    if good:
      ok('%s is written back as %s' % (cls.name, t))
    else:
      c.bad('%s:%d' % (mod.rel, mce.lineno), '%s.protopath_element returns `%s`, which is parsed as a different element' % (cls.name, full))
  return True


def table_module(c, prog):
  mod = next((m for m in prog.mods.values() if m.rel.endswith('codegen/io/table.py')), None)
  c.need(mod is not None, 'the table module')
  tp = mod.classes.get('TablePath')
  c.need(tp is not None, 'class TablePath')
  J = re.compile(r'^(TablePath|ColumnPath)\(([^()]*)\)$')
  # join(join(a, b), c) = join(a, b, c); the path of TablePath(absolute path) is that path
  inner = re.compile(r'<<os\.path>\.join\(([^()]*)\)>|<TablePath\(([^()]*)\)\.name>')
  spec = {'Child': ('TablePath', '<self.name>, name'), 'Column': ('ColumnPath', '<self.name>, name'), 'Size': ('ColumnPath', '<self.name>, name, @size'),
          'MapKeys': ('TablePath', '<self.name>, @key'), 'MapValues': ('TablePath', '<self.name>, @value')}
  for name, (kind, args) in spec.items():
    _, m = tp.find(name)
    c.need(m is not None, 'TablePath.' + name)
    w = '%s:%d' % (mod.rel, m.lineno)
    try:
      r = pystr.Ev(prog).call(mod, tp, m, [pystr.Sym('self', tp)] + [pystr.Sym(a) for a in ('name',)][:len(m.args.args) - 1])
    except pystr.Unsupported as u:
      c.undecided(w, str(u))
      continue
    for conds, v in r:
      t = pystr.show_any(v)
      joined = 'os.path>.join(' in t or t == 'self'
      for _ in range(8):
        t = inner.sub(lambda x: x.group(1) or x.group(2) or '', t)
      mm = J.match(t) if joined else None
      if mm and (mm.group(1), mm.group(2)) == (kind, args) and not conds:
        c.ok('TablePath.%s = %s' % (name, t))
      elif mm or 'Raised' in t:
        c.bad(w, 'TablePath.%s is `%s`: expected %s(%s)' % (name, t, kind, args))
      else:
        c.undecided(w, 'TablePath.%s is `%s`' % (name, t))


def lambda_param(prog, mod):
  out = set()
  for name, fn in mod.funcs.items():
    if name.startswith('_dynamic_input_lambda'):
      try:
        for _, v in pystr.Ev(prog).call(mod, None, fn, [pystr.Sym('body')]):
          out |= set(re.findall(r'string_view\s+(\w+)', pystr.show_any(v)))
      except pystr.Unsupported:
        pass
  return out


def run(c):
  prog = pyan.Program()
  mod = next((m for m in prog.mods.values() if m.rel.endswith('codegen/io/protopath.py')), None)
  c.need(mod is not None, 'the protopath module')
  table_module(c, prog)
  p = lambda_param(prog, mod)
  if len(p) == 1:
    PARAM.append(p.pop())
  elif p:
    c.bad(mod.rel, 'the generated wildcard lambdas disagree on the name of their key parameter: %s' % sorted(p))
  ns = nm = 0
  for cls in mod.classes.values():
    bases = {b.name for b in cls.bases}
    if 'SingleValueElement' in bases:
      ns += bool(single(c, prog, mod, cls))
    elif 'MultipleValueElement' in bases:
      nm += bool(multi(c, prog, mod, cls))
  c.count('single-value elements', ns)
  c.count('multi-value elements', nm)
  c.need(ns >= 6 and nm >= 3, 'the path element classes')


report.main('G04', RULE, run)
