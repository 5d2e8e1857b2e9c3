"""C++ getter names follow the protobuf compiler's naming rule."""
import ast
import os
import re
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import pyan
import pystr
import report

RULE = ('abstract evaluation of the getter-name function over a symbolic field name: lower-cased name, plus "_" exactly on the branch where '
        'the lower-cased name is in the keyword set; the keyword set is compared element by element with the C++20 keywords; every '
        'element class derives the name it puts after "." / "set_" / "mutable_" from that function')

# [lex.key] of C++20 with the alternative tokens of [lex.digraph].
KEYWORDS = set('''alignas alignof asm auto bool break case catch char char8_t char16_t char32_t class concept const consteval constexpr
constinit const_cast continue co_await co_return co_yield decltype default delete do double dynamic_cast else enum explicit export extern
false float for friend goto if inline int long mutable namespace new noexcept nullptr operator private protected public register
reinterpret_cast requires return short signed sizeof static static_assert static_cast struct switch template this thread_local throw true
try typedef typeid typename union unsigned using virtual void volatile wchar_t while
and and_eq bitand bitor compl not not_eq or or_eq xor xor_eq'''.split())
# names protoc also escapes
PROTOC_EXTRA = {'assert', 'null', 'NULL'}


def const_strings(prog, mod, e):
  """Strings of a constant collection expression, or None."""
  if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ('frozenset', 'set', 'tuple', 'list', 'sorted') and len(e.args) == 1:
    return const_strings(prog, mod, e.args[0])
  if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr == 'split' and isinstance(e.func.value, ast.Constant) and not e.args:
    return [(x, e.lineno) for x in e.func.value.value.split()]
  if isinstance(e, (ast.List, ast.Tuple, ast.Set)):
    out = []
    for x in e.elts:
      if isinstance(x, ast.Starred):
        r = const_strings(prog, mod, x.value)
        if r is None:
          return None
        out += r
      elif isinstance(x, ast.Constant) and isinstance(x.value, str):
        out.append((x.value, x.lineno))
      else:
        return None
    return out
  if isinstance(e, ast.BinOp) and isinstance(e.op, (ast.BitOr, ast.Add)):
    a, b = const_strings(prog, mod, e.left), const_strings(prog, mod, e.right)
    return None if a is None or b is None else a + b
  if isinstance(e, ast.Name) and e.id in mod.assigns:
    return const_strings(prog, mod, mod.assigns[e.id])
  return None


def members(v):
  """Attributes of the element spliced after `.`, set_ or mutable_ (None: the naming function itself)."""
  out = []
  parts = v if pystr.is_text(v) else ()
  for i, p in enumerate(parts):
    if not isinstance(p, pystr.Hole) or i == 0 and len(parts) == 1:
      continue
    before = parts[i - 1] if i else ''
    if not isinstance(before, str) or not re.search(r'(\.|->|\bset_|\bmutable_)$', before):
      continue
    m = re.match(r'^self\.(\w+)$', p.name)
    if m:
      out.append(m.group(1))
    elif p.info.get('call') == NAME[0]:
      out.append(None)
    elif p.name.startswith('self.') or 'self._' in p.name:
      out.append(p.name)
  return out


NAME = [None]


def run(c):
  prog = pyan.Program()
  mod = next((m for m in prog.mods.values() if m.rel.endswith('codegen/io/protopath.py')), None)
  c.need(mod is not None, 'the protopath module')
  # the naming function: the one whose test is membership in a constant set containing `class`
  namers = []
  for name, fn in mod.funcs.items():
    for n in ast.walk(fn):
      if isinstance(n, ast.Compare) and len(n.ops) == 1 and isinstance(n.ops[0], (ast.In, ast.NotIn)):
        s = const_strings(prog, mod, n.comparators[0])
        if s is not None and any(x.strip() == 'class' for x, _ in s):
          namers.append((name, fn, n, s))
  c.need(len(namers) == 1, 'one function deciding membership in the C++ keyword set')
  name, fn, test, entries = namers[0]
  NAME[0] = name
  where = '%s:%d' % (mod.rel, fn.lineno)
  have = set()
  for x, line in entries:
    if x in KEYWORDS or x in PROTOC_EXTRA:
      have.add(x)
      c.ok('keyword ' + x)
    else:
      c.bad('%s:%d' % (mod.rel, line), '%r is not a C++ keyword: a field of that name gets a wrong getter and no field can match it otherwise' % x, key='%s|entry|%s' % (mod.rel, x))
  for k in sorted(KEYWORDS - have):
    c.bad(where, 'the C++ keyword `%s` is missing from the set of names to escape: the generated getter does not exist' % k, key='%s|missing|%s' % (mod.rel, k))
  # the function itself
  ev = pystr.Ev(prog)
  try:
    res = ev.call(mod, None, fn, [pystr.Sym('x')])
  except pystr.Unsupported as u:
    c.undecided(where, str(u))
    return
  low = re.compile(r'^<x\.lower\(\)>$')
  for conds, v in res:
    t = pystr.show_any(v)
    known = [(k, b) for k, b in conds if ' In ' in k or ' NotIn ' in k]
    if len(known) != len(conds) or len(known) != 1:
      c.bad(where, '%s depends on more than membership of the lower-cased name in the keyword set: %s' % (name, [k for k, _ in conds]))
      continue
    k, b = known[0]
    isin = b if ' In ' in k else not b
    m = re.match(r'^<(.*) (In|NotIn) .*>$', k)
    if not m or not low.match(m.group(1)):
      c.bad(where, '%s tests %s for being a keyword, not the lower-cased field name' % (name, m.group(1) if m else k))
      continue
    want = '<x.lower()>_' if isin else '<x.lower()>'
    if t == want:
      c.ok('%s(x) = %s when the lower-cased name is%s a keyword' % (name, want, '' if isin else ' not'))
    else:
      c.bad(where, '%s returns %s for a field whose lower-cased name is%s a keyword; the C++ compiler of protobuf names the getter %s' % (name, t, '' if isin else ' not', want))
  # users: element classes that splice a field name into code
  n = 0
  for cls in mod.classes.values():
    if not any(b.name in ('SingleValueElement', 'MultipleValueElement') for b in cls.bases):
      continue
    _, init = cls.find('__init__')
    src = {}
    for s in ast.walk(init) if init is not None else ():
      if isinstance(s, ast.Assign):
        for t in s.targets:
          for u in (t.elts if isinstance(t, ast.Tuple) else [t]):
            if isinstance(u, ast.Attribute):
              src[u.attr] = s.value if t is u else None
    for mname, m in cls.methods.items():
      if mname in ('access', 'has_access', 'set_value_access', 'mutable_access', 'access_for_type', 'iteration_container', 'iteration_post_processing',
                   'resize', 'access_for_size'):
        args = [pystr.Sym('self', cls)] + [pystr.Sym(a.arg) for a in m.args.args[1:]]
        try:
          rs = pystr.Ev(prog, opaque=[name]).call(mod, cls, m, args, {a.arg: pystr.Sym(a.arg) for a in m.args.kwonlyargs})
        except pystr.Unsupported as u:
          c.undecided('%s:%d' % (mod.rel, m.lineno), str(u))
          continue
        for _, v in rs:
          t = pystr.show_any(v)
          # attributes used as a member name: after . or set_/mutable_
          for a in members(v):
            n += 1
            if a is None:
              c.ok('%s.%s calls the naming function' % (cls.name, mname))
              continue
            e = src.get(a)
            if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == name:
              c.ok('%s.%s uses the getter name' % (cls.name, mname))
            elif '_multi_element' in a:
              c.ok()
            else:
              c.bad('%s:%d' % (mod.rel, m.lineno), '%s.%s splices `%s` as a member name, which is not the name the protobuf compiler generates' % (cls.name, mname, a))
    if init is None or not any(isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == name for x in ast.walk(init)):
      continue
    # the getter must be that of the field named by the canonical text of the element
    w = '%s:%d' % (mod.rel, init.lineno)
    try:
      envs = pystr.Ev(prog, opaque=[name, 'is_this_type']).block(init.body, mod, cls, [((), {a.arg: (pystr.Sym('self', cls) if i == 0 else pystr.Sym(a.arg)) for i, a in enumerate(init.args.args)}, None)], 0)
      canon = pystr.Ev(prog).call(mod, cls, cls.find('protopath_element')[1], [pystr.Sym('self', cls)])
    except pystr.Unsupported as u:
      c.undecided(w, str(u))
      continue
    holes = {p.name[len('self.'):] for _, v in canon if pystr.is_text(v) for p in v if isinstance(p, pystr.Hole) and p.name.startswith('self.')}
    for _, env, ret in envs:
      if ret is not None and ret[0] is pystr.RAISED:
        continue
      fields = {k[len('self.'):]: v for k, v in env.items() if k.startswith('self.')}
      for k, v in fields.items():
        if not (pystr.is_text(v) and len(v) == 1 and isinstance(v[0], pystr.Hole) and v[0].info.get('call') == name):
          continue
        args = [pystr.show_any(x) for x in v[0].info['args']] + [pystr.show_any(x) for x in v[0].info.get('kw', {}).values()]
        if len(args) == 1 and any(pystr.show_any(fields[h]) == args[0] for h in holes if h in fields):
          c.ok('%s: the getter is that of the field its path names' % cls.name)
        else:
          c.bad(w, '%s computes its getter from `%s`, the path names the field `%s`' % (cls.name, ', '.join(args), ', '.join(sorted(pystr.show_any(fields[h]) for h in holes if h in fields))))
  c.count('keywords', len(entries))
  c.count('member names', n)
  c.need(n >= 10, 'field names spliced into generated accessors')


report.main('G03', RULE, run)
