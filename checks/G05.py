"""Generated accessors: every path through the emitted code sets the output exactly as presence demands."""
import os
import re
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import cpptmpl
import pyan
import pystr
import report
from pystr import Hole, Lst, Sym, show_any

RULE = ('the C++ text emitted by the path-level generators is evaluated abstractly (string templates with holes), parsed into statements and its '
        'paths enumerated, with each guarded field access split into found and missing: guards precede the accesses they protect, a missing '
        'value leaves the output missing, every leaf position appends exactly one item or advances the index exactly once, and the loops that '
        'count and the loops that fill are opened and closed alike')

OPAQUE = ['_value_type_definition', '_access_for_type', 'push_back_item', 'push_back_empty_item', 'create_shape', 'define_array', 'return_array',
          'has_access', 'can_continue_on_miss', 'set_value_access', '_wrap_lambda', 'default_name', 'required_includes', 'without_last_element',
          'is_empty', '_mutable_lambda', 'access', 'mutable_access', 'set_path_to_field', 'open_loop', '_total_size_lambda', 'gen_loop_size', 'resize']


class G:

  def __init__(self, c, prog, mod):
    self.c, self.prog, self.mod = c, prog, mod

  def where(self, fn):
    return '%s:%d' % (self.mod.rel, fn.lineno)

  def ev(self, cls, name, opaque, pre=None, args=None):
    """[(conds, value)] of a method with symbolic arguments."""
    k = self.mod.classes.get(cls) if cls else None
    fn = k.find(name)[1] if k else self.mod.funcs.get(name)
    self.c.need(fn is not None, '%s%s' % (cls + '.' if cls else '', name))
    ev = pystr.Ev(self.prog, opaque=[o for o in opaque if o != name or cls is None])
    env = {}
    a = fn.args
    for p in a.posonlyargs + a.args + a.kwonlyargs:
      env[p.arg] = Sym(p.arg)
    if k:
      env[a.args[0].arg] = Sym('self', k)
    env.update(pre or {})
    try:
      return fn, [(conds, ret[0] if ret else None) for conds, _, ret in ev.block(fn.body, self.mod, k, [((), env, None)], 0)]
    except pystr.Unsupported as u:
      self.c.undecided(self.where(fn), '%s: %s' % (name, u))
      return fn, []


def opens(h):
  return h.info.get('call') in ('open_loop', 'join') or h.name.startswith('loop:')


def closes(h):
  return h.info.get('op') == 'Mult' and '}' in [show_any(h.info['left']), show_any(h.info['right'])]


def close_count(h):
  r = h.info['right'] if show_any(h.info['left']) == '}' else h.info['left']
  if pystr.is_text(r) and len(r) == 1 and isinstance(r[0], Hole) and r[0].info.get('call') == 'len':
    return r[0].info['args'][0]
  return None


def find_holes(v, pred):
  return [p for p in v if isinstance(p, Hole) and pred(p)]


def args_of(hole, fn_args):
  """Positional and keyword arguments of an opaque call by name."""
  d = dict(zip(fn_args, hole.info.get('args', [])))
  d.update(hole.info.get('kw', {}))
  return d


SPTF = ['tmp_prefix', 'input_name', 'output_name', 'missing_action', 'is_mutable', 'force_missing_check']


def split_access(g, w):
  def f(h):
    if h.info.get('call') != 'set_path_to_field':
      return None
    a = args_of(h, SPTF)
    miss = a.get('missing_action', ())
    return [((('missing', h),), cpptmpl.parse(miss + (';',), opens, closes)), ((('found', h),), None)]
  return f


def text_arg(v):
  return cpptmpl.txt(cpptmpl.flat(v)) if pystr.is_text(v) else show_any(v)


# -- set_path_to_field --------------------------------------------------------
def field_path(g):
  c = g.c
  for n in (1, 2, 3):
    elems = [Sym('e%d' % i) for i in range(n)]
    fn, res = g.ev('_SingleValueElementsList', 'set_path_to_field', OPAQUE, pre={'self._elements': Lst(elems)})
    w = g.where(fn)
    seen = set()
    for conds, v in res:
      d = dict(conds)
      if v is pystr.RAISED or any('is_empty' in k and t for k, t in conds):
        continue
      if not pystr.is_text(v):
        c.undecided(w, 'set_path_to_field returns %s' % show_any(v))
        continue
      mutable, force = d.get('is_mutable'), d.get('force_missing_check')
      try:
        st = cpptmpl.parse(v)
      except cpptmpl.ParseError as u:
        c.bad(w, 'the emitted path to a field is no sequence of statements: %s' % u)
        continue
      last, i, guarded, k = 'input_name', 0, None, 0
      names = []
      ok = True
      for s in st:
        if i >= n:
          c.bad(w, 'the emitted path to a field goes on after its last element: `%s`' % s)
          ok = False
          break
        if s.kind == 'if':
          m = re.match(r'^!\s*\(?<e(\d)\.has_access\((.*)\)>\)?$', s.text)
          then = s.then.body if s.then.kind == 'block' else [s.then]
          then_ok = len(then) == 1 and then[0].text == '<missing_action>' and s.other is None
          if not m or int(m.group(1)) != i or strip(m.group(2)) != last or not then_ok:
            c.bad(w, 'element %d of a path is reached through `%s` but guarded by `if (%s) { %s }`' % (i, last, s.text, '; '.join(t.text for t in then)))
            ok = False
            break
          guarded = i
        elif s.kind == 'expr':
          m = re.match(r'^(const )?auto\s*& (\S+) = <e(\d)\.(access|mutable_access)\((.*)\)>$', s.text)
          if not m:
            c.bad(w, 'unexpected statement `%s` in the emitted path to a field' % s.text)
            ok = False
            break
          nxt, e, kind, arg = m.group(2), int(m.group(3)), m.group(4), strip(m.group(5))
          if e != i or arg != last:
            c.bad(w, 'element %d of a path is read from `%s`, expected `%s`' % (e, arg, last))
            ok = False
            break
          if mutable is not None and (kind == 'mutable_access') != mutable:
            c.bad(w, 'a %s path reads element %d by %s' % ('mutable' if mutable else 'const', i, kind))
            ok = False
            break
          if mutable is True and m.group(1):
            c.bad(w, 'a mutable path binds element %d to a const reference' % i)
            ok = False
            break
          cc = [(kk, t) for kk, t in conds if re.match(r'^<?e%d\.can_continue_on_miss\(' % i, kk)]
          if guarded != i:
            allowed = any(t for kk, t in cc) and all('is_mutable=is_mutable' in kk for kk, t in cc) and force is not True
            if not allowed:
              c.bad(w, 'element %d of a path is read without a presence test%s' % (i, ' although one is forced' if force else ''))
              ok = False
              break
            if force is None:
              c.bad(w, 'the presence test of an element is skipped without looking at force_missing_check')
              ok = False
              break
          names.append(nxt)
          last = nxt
          i += 1
        else:
          c.bad(w, 'unexpected statement `%s` in the emitted path to a field' % s)
          ok = False
          break
      if not ok:
        continue
      if i != n:
        c.bad(w, 'a path of %d elements emits %d accesses' % (n, i))
      elif names[-1] != '<output_name>':
        c.bad(w, 'the last element of a path is bound to `%s`, not to the requested output variable' % names[-1])
      elif len(set(names)) != len(names) or any(x == '<output_name>' for x in names[:-1]):
        c.bad(w, 'intermediate variables of a path clash: %s' % names)
      else:
        c.ok('path of %d elements%s: guards precede accesses, last bound to the output' % (n, ', mutable' if mutable else ''))
        seen.add((mutable, force))
    c.count('field paths', len(seen))
  # an arbitrary iteration
  fn, res = g.ev('_SingleValueElementsList', 'set_path_to_field', OPAQUE)
  for conds, v in res:
    if v is pystr.RAISED or not pystr.is_text(v):
      continue
    t = show_any(v)
    guard = re.search(r'if \(!\s*\(?<elem\.has_access\((.*?)\)>\)?\) ', t)
    acc = re.search(r'<elem\.(?:mutable_)?access\((.*?)\)>;', t)
    force = dict(conds).get('force_missing_check')
    cont = [x for k, x in conds if 'can_continue_on_miss' in k]
    if acc is None:
      c.undecided(g.where(fn), 'loop body of set_path_to_field')
      break
    if guard is None and (force is not False or cont != [True]):
      c.bad(g.where(fn), 'an element at an arbitrary position is read without a presence test')
    elif guard is not None and (guard.group(1) != acc.group(1) or guard.start() > acc.start()):
      c.bad(g.where(fn), 'an element at an arbitrary position is tested on `%s` but read from `%s`' % (guard.group(1), acc.group(1)))
    else:
      c.ok('arbitrary position')


def strip(t):
  t = t.strip()
  m = re.match(r'^<([^<>]*)>$', t)
  return m.group(1) if m and m.group(1) in ('input_name',) else t


# -- single values -------------------------------------------------------------
def lambda_bodies(g, cls, name, opaque=OPAQUE):
  """[(conds, body text, lambda hole, accessor)] of the accessors a method returns."""
  fn, res = g.ev(cls, name, opaque)
  out = []
  for conds, v in res:
    if v is pystr.RAISED:
      continue
    if not isinstance(v, Sym) or not getattr(v, 'args', None):
      g.c.undecided(g.where(fn), '%s returns %s' % (name, show_any(v)[:80]))
      continue
    lam = v.args[0]
    if pystr.is_text(lam) and len(lam) == 1 and isinstance(lam[0], Hole) and lam[0].info.get('args'):
      out.append((conds, lam[0].info['args'][0], lam[0], v))
    else:
      g.c.undecided(g.where(fn), '%s: lambda %s' % (name, show_any(lam)[:80]))
  return fn, out


def run_paths(g, w, body):
  try:
    st = cpptmpl.parse(body, opens, closes)
    return st, cpptmpl.paths(st, split_access(g, w))
  except cpptmpl.ParseError as u:
    g.c.bad(w, 'the emitted code is malformed: %s' % u)
    return None, []


def outcome(ev):
  return 'missing' if any(e[0] == 'missing' for e in ev) else 'found'


def out_name(ev):
  for e in ev:
    if e[0] == 'found':
      return text_arg(args_of(e[1], SPTF).get('output_name', ()))
  return None


def optional(g):
  c = g.c
  fn, bodies = lambda_bodies(g, 'Protopath', '_optional_accessor')
  w = g.where(fn)
  for conds, body, lam, acc in bodies:
    st, ps = run_paths(g, w, body)
    for ev, ex in ps:
      exprs = [e[1] for e in ev if e[0] == 'expr']
      kind = outcome(ev)
      pres = [re.match(r'^output->present = (true|false)$', x) for x in exprs]
      state = None
      for p in pres:
        if p:
          state = p.group(1)
      whole = [x for x in exprs if re.match(r'^\*output = ', x)]
      if whole and state is None:
        state = 'false' if re.match(r'^\*output = (\{\}|std::nullopt|.*\(\))$', whole[-1]) else '?'
      val = [re.match(r'^output->value = (.*)$', x) for x in exprs]
      val = [m.group(1) for m in val if m]
      if kind == 'missing':
        if state == 'false':
          c.ok('optional: missing leaves the output missing')
        else:
          c.bad(w, 'the emitted code leaves `present` %s when the value is missing' % ('unset' if state is None else state))
      else:
        nm = out_name(ev)
        if state != 'true':
          c.bad(w, 'the emitted code leaves `present` %s when the value is found' % ('unset' if state is None else state))
        elif not val or nm is None or not re.search(r'\b%s\b' % re.escape(nm), val[-1]):
          c.bad(w, 'the emitted code sets the value to `%s`, not to the field read into `%s`' % (val[-1] if val else 'nothing', nm))
        elif 'ToArollaCompatibleType' not in val[-1]:
          c.bad(w, 'the emitted code stores `%s` without converting it to the value type' % val[-1])
        else:
          c.ok('optional: found sets present and value')
    kw = lam.info.get('kw', {})
    ot = text_arg(kw.get('output_type', ())) if 'output_type' in kw else (text_arg(lam.info['args'][1]) if len(lam.info['args']) > 1 else '')
    if 'arolla_optional_value_t' not in ot:
      c.bad(w, 'the output of an optional accessor has type `%s`, not an optional value' % ot)
    else:
      c.ok('optional: output type')
    with_type = dict(conds).get('cpp_type')
    if with_type and '<cpp_type>' not in ot and 'cpp_type' not in ot:
      c.bad(w, 'the requested C++ type is ignored: `%s`' % ot)
    common(g, w, acc, 'optional')


def common(g, w, acc, what):
  c = g.c
  pp = acc.kw.get('protopath')
  if pp is None or 'self._protopath' not in show_any(pp):
    c.bad(w, '%s accessor does not record the protopath it was built from' % what)
  else:
    c.ok()
  if len(acc.args) > 1 and '_MANDATORY_INCLUDES' not in show_any(acc.args[1]):
    c.bad(w, '%s accessor does not list the mandatory includes' % what)
  if len(acc.args) > 2 and 'default_name' not in show_any(acc.args[2]):
    c.bad(w, '%s accessor does not carry its default name' % what)


def default_value(g):
  c = g.c
  fn, bodies = lambda_bodies(g, 'Protopath', 'scalar_accessor_with_default_value')
  w = g.where(fn)
  for conds, body, lam, acc in bodies:
    st, ps = run_paths(g, w, body)
    for ev, ex in ps:
      sets = [m.group(1) for m in (re.match(r'^\*output = (.*)$', e[1]) for e in ev if e[0] == 'expr') if m]
      final = sets[-1] if sets else None
      if outcome(ev) == 'missing':
        if final == '<default_value_cpp>':
          c.ok('default: missing gives the default')
        else:
          c.bad(w, 'a missing value gives `%s`, not the default' % final)
      else:
        nm = out_name(ev)
        if final is not None and nm is not None and re.search(r'\b%s\b' % re.escape(nm), final):
          c.ok('default: found gives the value')
        else:
          c.bad(w, 'a present value gives `%s`, not the field read into `%s`' % (final, nm))
    common(g, w, acc, 'scalar')
    if 'default_value_cpp' not in acc.kw:
      c.bad(w, 'a scalar accessor does not record its default value')
    else:
      c.ok()


def size_shape(g):
  c = g.c
  fn, bodies = lambda_bodies(g, 'Protopath', '_size_shape_accessor')
  w = g.where(fn)
  for conds, body, lam, acc in bodies:
    st, ps = run_paths(g, w, body)
    for ev, ex in ps:
      ret = [e[1] for e in ev if e[0] == 'return']
      r = ret[-1] if ret else None
      m = re.match(r'^<array_gen\.create_shape\((.*)\)>$', r or '')
      if not m:
        c.bad(w, 'a size accessor returns `%s`, no shape' % r)
        continue
      if outcome(ev) == 'missing':
        if m.group(1) == '0':
          c.ok('size: missing gives an empty shape')
        else:
          c.bad(w, 'the size of a missing field is `%s`, not 0' % m.group(1))
      else:
        nm = out_name(ev)
        if nm and re.search(r'\b%s\b' % re.escape(nm), m.group(1)):
          c.ok('size: found gives its size')
        else:
          c.bad(w, 'the size of a present field is `%s`, not `%s`' % (m.group(1), nm))
    common(g, w, acc, 'size')


# -- arrays ---------------------------------------------------------------------
def loops_ok(g, w, body, st, what, mutable=False):
  """The nest of opened loops is closed completely and threads its loop variables."""
  c = g.c
  depth, cur, nest = 0, st, []
  while True:
    lp = [s for s in cur if s.kind == 'loop']
    if not lp:
      break
    if len(lp) > 1:
      c.bad(w, '%s: several loops side by side' % what)
      return None
    nest.append(lp[0])
    cur = lp[0].body
  cl = find_holes(body, closes)
  if not cl:
    c.undecided(w, '%s: how the loops are closed' % what)
    return None
  lst = close_count(cl[0])
  if len(cl) != 1 or lst is None:
    c.undecided(w, '%s: closing of the loops' % what)
    return None
  if isinstance(lst, Lst):
    good = len(lst.elts) == len(nest)
  else:
    # the same opaque list is joined and counted
    j = [n.hole for n in nest if n.hole is not None and n.hole.info.get('call') == 'join']
    good = len(j) == len(nest) == 1 and show_any(j[0].info['args'][0]) == show_any(lst)
  if good:
    c.ok('%s: as many loops closed as opened' % what)
  else:
    c.bad(w, '%s: %d loops opened, closed by `%s`' % (what, len(nest), show_any(lst)))
  for n in nest:
    if n.hole is not None and n.hole.info.get('call') == 'open_loop':
      a = args_of(n.hole, ['loop_var', 'input_name', 'is_mutable'])
      src = show_any(a.get('input_name', ()))
      if 'loop:' in src and src.strip('<>').startswith('loop:'):
        c.ok('%s: each loop runs over the variable of the previous one' % what)
      else:
        c.bad(w, '%s: a loop runs over `%s`, not over the variable of the previous loop' % (what, src))
      mt = a.get('is_mutable', False)
      if bool(mt is True) != mutable:
        c.bad(w, '%s: a loop is opened with is_mutable=%s' % (what, mt))
      ini = [p for p in (a.get('input_name') or ()) if isinstance(p, Hole)]
      if ini and 'init' in ini[0].info:
        n.start = show_any(ini[0].info['init'])
  # everything runs inside a loop so that `continue` has a target
  if any(n.hole is None and re.match(r'^int (\w+) = 0; \1 != 1; (\+\+\1|\1\+\+)$', n.text) for n in nest[:1]) or nest and nest[0].hole is not None and nest[0].hole.info.get('call') == 'join':
    c.ok('%s: enclosed in a loop' % what)
  else:
    c.bad(w, '%s: the first guarded access is not inside a loop, its `continue` has no target' % what)
  return nest


def inner_var(nest):
  for n in reversed(nest):
    if n.hole is not None and n.hole.info.get('call') == 'open_loop':
      return show_any(args_of(n.hole, ['loop_var'])['loop_var'])
  return None


def array(g):
  c = g.c
  fn, bodies = lambda_bodies(g, 'Protopath', '_array_accessor')
  w = g.where(fn)
  n = 0
  for conds, body, lam, acc in bodies:
    st, ps = run_paths(g, w, body)
    if st is None:
      continue
    nest = loops_ok(g, w, body, st, 'array')
    if nest is None:
      continue
    if any(getattr(x, 'start', 'input') != 'input' for x in nest):
      c.bad(w, 'array: the outermost loop runs over `%s`' % [x.start for x in nest if hasattr(x, 'start')][0])
    empty = dict(conds).get('<self._last_path.is_empty>')
    size = dict(conds).get('<self._is_size>')
    for ev, ex in ps:
      n += 1
      if ex == 'return':
        c.bad(w, 'array: returns from inside the loops')
        continue
      pushes = [e[1] for e in ev if e[0] == 'hole' and e[1].info.get('call', '').startswith('push_back')]
      if len(pushes) != 1:
        c.bad(w, 'array: %d items are appended on the path where the value is %s' % (len(pushes), outcome(ev)))
        continue
      p = pushes[0]
      call, arg = p.info['call'], text_arg(p.info['args'][0]) if p.info.get('args') else None
      has_acc = any(e[0] in ('found', 'missing') for e in ev)
      if outcome(ev) == 'missing':
        if call == 'push_back_empty_item' and size is not True or call == 'push_back_item' and arg == '0' and size is True:
          c.ok('array: a missing value appends %s' % ('0' if size else 'a missing item'))
        else:
          c.bad(w, 'array: a missing %s appends `%s`' % ('size' if size else 'value', p.name))
      else:
        want = out_name(ev) if has_acc else inner_var(nest)
        if call == 'push_back_item' and arg == want:
          c.ok('array: a present value appends `%s`' % arg)
        else:
          c.bad(w, 'array: a present value appends `%s`, expected `%s`' % (p.name, want))
      if has_acc:
        h = [e[1] for e in ev if e[0] in ('found', 'missing')][0]
        src = text_arg(args_of(h, SPTF).get('input_name', ()))
        if src != inner_var(nest):
          c.bad(w, 'array: the field is read from `%s`, not from the loop variable `%s`' % (src, inner_var(nest)))
    # definition, fill and return use one total
    flat = [s for s in st]
    kinds = [s.hole.info.get('call') if s.kind == 'hole' else s.kind for s in flat]
    if 'define_array' not in kinds or 'return_array' not in kinds or not (kinds.index('define_array') < kinds.index('loop') < kinds.index('return_array')):
      c.bad(w, 'array: the array is not defined before and returned after the loops')
    else:
      c.ok('array: defined, filled, returned')
      d = flat[kinds.index('define_array')].hole
      a = args_of(d, ['value_type_name', 'total_size_name', 'buffer_factory_name'])
      total = text_arg(a.get('total_size_name', ()))
      td = [s.text for s in flat[:kinds.index('define_array')] if s.kind == 'expr' and re.match(r'^(?:const )?(?:size_t|auto|int64_t) %s = ' % re.escape(total), s.text)]
      m = re.search(r'<_total_size_lambda\(<self\._multi_elems>(.*)\)>\(input\)$', td[-1]) if td else None
      if m and 'self._is_wildcard' in m.group(1):
        c.ok('array: sized by the counting lambda over the same loops')
      else:
        c.bad(w, 'array: `%s` is sized by `%s`, not by counting the loops it fills' % (total, td[-1] if td else 'nothing'))
      if text_arg(a.get('value_type_name', ())) != 'value_type':
        c.bad(w, 'array: the array holds `%s`' % text_arg(a.get('value_type_name', ())))
      ap = d.info.get('kw', {}).get('always_present')
      if ap is not None and show_any(ap) not in ('<self._is_size>', 'self._is_size', 'True' if size else 'False'):
        c.bad(w, 'array: always_present=%s' % show_any(ap))
    common(g, w, acc, 'array')
    inc = show_any(acc.args[1]) if len(acc.args) > 1 else ''
    if 'required_includes' not in inc:
      c.bad(w, 'array accessor does not list the includes of its array builder')
  c.count('array paths', n)


def total_size(g):
  c = g.c
  op = OPAQUE + ['_assign_item_size', '_single_input_lambda']
  fn, res = g.ev(None, '_total_size_lambda', [o for o in op if o != '_total_size_lambda'])
  w = g.where(fn)
  for conds, v in res:
    if not (pystr.is_text(v) and len(v) == 1 and isinstance(v[0], Hole) and v[0].info.get('args')):
      c.undecided(w, '_total_size_lambda returns %s' % show_any(v)[:60])
      continue
    body = v[0].info['args'][0]
    some = dict(conds).get('multi_elems')
    cap = show_any(v[0].info.get('kw', {}).get('capture_all', ())) if 'capture_all' in v[0].info.get('kw', {}) else None
    try:
      st = cpptmpl.parse(body, opens, closes, cpptmpl.STMT_HOLES)
    except cpptmpl.ParseError:
      st = None
    if some is False:
      if st and st[0].kind == 'return' and st[0].text == '1':
        c.ok('count without loops: 1')
      else:
        c.bad(w, 'without repeated fields the number of values is `%s`, not 1' % text_arg(body))
      continue
    if cap != 'capture_all':
      c.bad(w, 'the counting lambda does not capture what its caller asked for')
    # shape: total = 0; loops { SIZE; total += size } return total
    t = text_arg(body)
    ai = find_holes(body, lambda h: '_assign_item_size' in h.name)
    m = re.match(r'^(?:size_t|int64_t|auto) (\w+) = 0;', t)
    r = re.search(r'return (\w+);$', t)
    call = re.search(r'_assign_item_size\(input, multi_elems, (\w+)\)', t)
    if not m or not r or not call or m.group(1) != r.group(1):
      c.bad(w, 'the counting lambda is `%s`: it does not return the counter it initialises' % t[:150])
      continue
    tot, item = m.group(1), call.group(1)
    adds = re.findall(r'%s \+= (\w+);' % tot, t)
    if adds != [item]:
      c.bad(w, 'the counting lambda adds %s, expected `%s` once' % (adds, item))
    else:
      c.ok('count: sum of the innermost sizes')
    cl = find_holes(body, closes)
    j = find_holes(body, lambda h: h.info.get('call') == 'join')
    if len(cl) == 1 and len(j) == 1 and show_any(close_count(cl[0])) == show_any(j[0].info['args'][0]):
      c.ok('count: as many loops closed as opened')
      pos = [i for i, p in enumerate(body) if p is cl[0]][0]
      post = text_arg(body[pos + 1:])
      if '+=' in post:
        c.bad(w, 'the counting lambda adds the size outside of the loops')
    else:
      c.bad(w, 'the counting lambda closes `%s` loops' % (show_any(close_count(cl[0])) if cl else 'no'))
  # sizes of the innermost repeated field
  for n in (1, 2, 3):
    elems = [Sym('m%d' % i) for i in range(n)]
    fn, res = g.ev(None, '_assign_item_size', [o for o in op if o != '_assign_item_size'], pre={'multi_elems': Lst(elems)})
    w = g.where(fn)
    for conds, v in res:
      if not isinstance(v, Lst) or len(v.elts) != 2 or not isinstance(v.elts[0], Lst) or not pystr.is_text(v.elts[1]):
        c.undecided(w, '_assign_item_size returns %s' % show_any(v)[:80])
        continue
      seq = pystr.text(*v.elts[0].elts)
      opened = [p for p in seq if isinstance(p, Hole)]
      ok = [h.info.get('call') for h in opened] == ['open_loop'] * (n - 1)
      cur = 'input_name'
      for i, h in enumerate(opened):
        a = args_of(h, ['loop_var', 'input_name', 'is_mutable'])
        ok = ok and h.info.get('recv') is elems[i] and strip(text_arg(a.get('input_name', ()))) == cur
        cur = text_arg(a.get('loop_var', ()))
      sz = [p for p in v.elts[1] if isinstance(p, Hole)]
      ok = ok and len(sz) == 1 and sz[0].info.get('call') == 'gen_loop_size' and sz[0].info.get('recv') is elems[n - 1]
      if ok:
        a = args_of(sz[0], ['size_var', 'input_name'])
        ok = strip(text_arg(a.get('size_var', ()))) in ('item_size_name', '<item_size_name>') and strip(text_arg(a.get('input_name', ()))) == cur
      if not ok:
        c.bad(w, 'counting %d nested repeated fields opens %s and sizes `%s`' % (n, [show_any((h,)) for h in opened], show_any(v.elts[1])[-80:]))
      elif n > 1 and not re.match(r'^\s*(for|while|do)\b', seq[0] if isinstance(seq[0], str) else ''):
        c.bad(w, 'counting %d nested repeated fields: the first guarded access is not inside a loop, its `continue` has no target' % n)
      else:
        c.ok('counting %d nested repeated fields' % n)
  fn, res = g.ev(None, '_assign_item_size', [o for o in op if o != '_assign_item_size'])
  w = g.where(fn)
  for conds, v in res:
    if not isinstance(v, Lst) or len(v.elts) != 2:
      c.undecided(w, '_assign_item_size returns %s' % show_any(v)[:80])
      continue
    loops, body = v.elts
    many = any(t for k, t in conds if 'len(multi_elems)' in k)
    opened = [p for x in (loops.elts if isinstance(loops, Lst) else []) for p in (x if pystr.is_text(x) else ()) if isinstance(p, Hole) and p.info.get('call') == 'open_loop']
    if len(opened) == 1:
      a = args_of(opened[0], ['loop_var', 'input_name', 'is_mutable'])
      if 'loop:' not in show_any(a['input_name']):
        c.bad(w, 'counting: a loop runs over `%s`, not over the variable of the previous loop' % show_any(a['input_name']))
      else:
        c.ok('counting loops thread their variables')
      if a.get('is_mutable', False) is True:
        c.bad(w, 'counting: the loops may modify the input')
    elif not opened:
      c.undecided(w, 'counting loops')
    sz = [p for p in (body if pystr.is_text(body) else ()) if isinstance(p, Hole) and p.info.get('call') == 'gen_loop_size']
    if len(sz) != 1 or 'multi_elems[-1]' not in sz[0].name or 'item_size_name' not in show_any(sz[0].info['args'][0]):
      c.bad(w, 'counting: the size added is `%s`, not the size of the last repeated field' % show_any(body)[:100])
    else:
      c.ok('counting takes the size of the last repeated field')
    if many and not any('for (' in show_any(x) for x in loops.elts):
      c.bad(w, 'counting: the first guarded access is not inside a loop, its `continue` has no target')


def loop_helpers(g):
  c = g.c
  fn, res = g.ev('_SingleMultiElemPath', 'gen_loop_size', OPAQUE)
  w = g.where(fn)
  for conds, v in res:
    t = text_arg(v)
    m = re.match(r'^(?:size_t|auto|int64_t) <size_var> = \[&\]\(\) \{ (.*)\}\(\);$', t)
    if not m:
      c.bad(w, 'the size of a repeated field is computed by `%s`' % t[:120])
      continue
    body = v
    inner = cpptmpl.flat(v)
    start = inner.index('{') + 1
    p = cpptmpl.Parser(tuple(inner[start:]), opens, closes)
    st = p.stmts()
    ps = cpptmpl.paths(st, split_access(g, w))
    for ev, ex in ps:
      ret = [e[1] for e in ev if e[0] == 'return']
      acc = [e[1] for e in ev if e[0] in ('found', 'missing')]
      if outcome(ev) == 'missing':
        if ret == ['0']:
          c.ok('a missing repeated field has size 0')
        else:
          c.bad(w, 'a missing repeated field has size `%s`' % (ret or 'nothing'))
      else:
        src = out_name(ev) if acc else '<input_name>'
        if ret and ret[-1] == src + '<self._multi_elem.access_for_size>':
          c.ok('size of the field reached')
        else:
          c.bad(w, 'the size returned is `%s`, expected that of `%s`' % (ret[-1] if ret else 'nothing', src))
      for h in acc:
        if text_arg(args_of(h, SPTF).get('input_name', ())) not in ('input_name', '<input_name>'):
          c.bad(w, 'the size is taken from `%s`, not from the input' % text_arg(args_of(h, SPTF)['input_name']))
  fn, res = g.ev('_SingleMultiElemPath', 'open_loop', [o for o in OPAQUE])
  w = g.where(fn)
  for conds, v in res:
    hs = [p for p in v if isinstance(p, Hole)] if pystr.is_text(v) else []
    acc = [h for h in hs if h.info.get('call') == 'set_path_to_field']
    lp = [h for h in hs if h.info.get('call') == 'open_loop']
    if len(lp) != 1 or len(acc) > 1 or (acc and hs.index(acc[0]) > hs.index(lp[0])):
      c.bad(w, 'opening a loop emits `%s`' % show_any(v)[:120])
      continue
    a = args_of(lp[0], ['loop_var', 'input_name', 'is_mutable'])
    src = text_arg(a.get('input_name', ())) if pystr.is_text(a.get('input_name')) else show_any(a.get('input_name'))
    if acc:
      b = args_of(acc[0], SPTF)
      if text_arg(b.get('missing_action', ())) != 'continue':
        c.bad(w, 'a missing outer field executes `%s` instead of skipping the loop' % text_arg(b.get('missing_action', ())))
      elif src != text_arg(b.get('output_name', ())):
        c.bad(w, 'the loop runs over `%s`, the path leads to `%s`' % (src, text_arg(b.get('output_name', ()))))
      elif show_any(b.get('input_name')) != 'input_name':
        c.bad(w, 'the path to the loop starts from `%s`' % show_any(b.get('input_name')))
      elif show_any(b.get('is_mutable', False)) != 'is_mutable' or show_any(a.get('is_mutable', False)) != 'is_mutable':
        c.bad(w, 'the mutability of the loop is not passed on to the path and the loop')
      elif show_any(b.get('force_missing_check', False)) not in ('is_mutable', 'True'):
        c.bad(w, 'a mutable loop creates the messages on its way instead of skipping missing ones')
      else:
        c.ok('loop over a reached field: missing is skipped')
    else:
      if src == 'input_name' and show_any(a.get('is_mutable', False)) == 'is_mutable':
        c.ok('loop over the variable itself')
      else:
        c.bad(w, 'the loop runs over `%s`' % src)


# -- mutable accessors -------------------------------------------------------------
def mutable_optional(g):
  c = g.c
  fn, bodies = lambda_bodies(g, 'Protopath', '_mutable_optional_accessor')
  w = g.where(fn)
  for conds, body, lam, acc in bodies:
    m = inner_lambda(g, w, body)
    if m is None:
      continue
    st, ps = run_paths(g, w, m)
    guard_needed = [t for k, t in conds if 'can_continue_on_miss' in k]
    for ev, ex in ps:
      sets = [e for e in ev if e[0] == 'expr' and '.set_value_access(' in e[1]]
      before = ev[:ev.index(sets[0])] if sets else ev
      pres = [e for e in before if e[0] == 'cond' and re.match(r'^!\s*\(?input\.present\)?$', e[1])]
      posp = [e for e in before if e[0] == 'cond' and re.match(r'^\(?input\.present\)?$', e[1])]
      present = (not pres[0][2]) if pres else (posp[0][2] if posp else None)
      hasc = [e for e in before if e[0] == 'cond' and '.has_access(' in e[1]]
      neg = lambda e: e[1].strip().startswith('!')
      has = None if not hasc else (hasc[-1][2] != neg(hasc[-1]))
      touched = [e for e in before if e[0] == 'found' or e[0] == 'missing']
      if touched and present is not True and present is not None and present is False:
        c.bad(w, 'mutable: a missing value still walks (and creates) the path')
      if sets:
        if present is not True:
          c.bad(w, 'mutable: a missing value is written into the proto')
        elif len(sets) != 1:
          c.bad(w, 'mutable: the field is written %d times' % len(sets))
        elif outcome(before) == 'missing':
          c.bad(w, 'mutable: the field is written although the path to it is missing')
        elif guard_needed == [False] and has is not True or not guard_needed:
          c.bad(w, 'mutable: the last element is written without a presence test although it cannot be created')
        else:
          sm = re.search(r'\.set_value_access\(([^,]*), (.*)\)>$', sets[0][1])
          src = out_name(before)
          tgt = sm.group(1) if sm else ''
          if src is None:
            d = [x[1] for x in before if x[0] == 'expr' and re.match(r'^auto\s*& (\w+) = \*output_ptr$', x[1])]
            src = re.match(r'^auto\s*& (\w+)', d[-1]).group(1) if d else '(*output_ptr)'
          if tgt != src:
            c.bad(w, 'mutable: `%s` is written, the path leads to `%s`' % (tgt, src))
          elif not sm or 'input.value' not in sm.group(2):
            c.bad(w, 'mutable: the value written is `%s`' % (sm.group(2) if sm else '?'))
          else:
            c.ok('mutable: writes the input value through the path')
      else:
        if present is True and outcome(ev) == 'found' and has is not False:
          c.bad(w, 'mutable: a present value is not written although the path exists')
        else:
          c.ok('mutable: nothing written when the value or the path is missing')
    for p in find_deep(body, 'set_path_to_field'):
      a = args_of(p, SPTF)
      if a.get('is_mutable', False) is not True:
        c.bad(w, 'mutable: the path to the written field is a const path')
      if text_arg(a.get('input_name', ())) not in ('(*output_ptr)', '*output_ptr'):
        c.bad(w, 'mutable: the path starts from `%s`, not from the output' % text_arg(a.get('input_name', ())))
    last_element(g, w, body, conds)
    common(g, w, acc, 'mutable')


def find_deep(v, call):
  return [p for p in v if isinstance(p, Hole) and p.info.get('call') == call]


def last_element(g, w, body, conds):
  """The element tested, the element written and the prefix walked are the last one and the rest of one path."""
  c = g.c
  for p in body:
    if isinstance(p, Hole) and p.info.get('call') in ('set_value_access', 'has_access'):
      if 'self._last_path>[-1]' in p.name or 'self._last_path[-1]' in p.name:
        c.ok('mutable: %s of the last element' % p.info['call'])
      else:
        c.bad(w, 'mutable: %s of `%s`, not of the last element of the path' % (p.info['call'], p.name[:60]))
    if isinstance(p, Hole) and p.info.get('call') == 'set_path_to_field':
      if 'without_last_element()' in p.name:
        c.ok('mutable: walks the path without its last element')
      else:
        c.bad(w, 'mutable: walks `%s` before writing the last element' % p.name[:60])


def inner_lambda(g, w, body):
  """The body of the lambda the emitted factory returns."""
  it = cpptmpl.flat(body)
  t = ''.join(x if isinstance(x, str) else '\x00' for x in it)
  m = re.search(r'return\s*\[[^\]]*\]\s*\(([^)]*)\)\s*(->\s*[\w:]+\s*)?\{', t)
  if not m:
    g.c.undecided(w, 'mutable: no lambda returned')
    return None
  if 'output_ptr' not in m.group(1) or 'const input_type& input' not in m.group(1):
    g.c.bad(w, 'mutable: the returned lambda takes (%s)' % m.group(1))
  end = t.rstrip().rstrip(';').rstrip().rfind('}')
  return tuple(it[m.end():end])


def mutable_array(g):
  c = g.c
  fn, bodies = lambda_bodies(g, 'Protopath', '_mutable_array_accessor')
  w = g.where(fn)
  n = 0
  for conds, body, lam, acc in bodies:
    m = inner_lambda(g, w, body)
    if m is None:
      continue
    st, ps = run_paths(g, w, m)
    if st is None:
      continue
    nest = loops_ok(g, w, m, st, 'mutable array', mutable=True)
    if nest is None:
      continue
    if any(getattr(x, 'start', '(*output_ptr)') not in ('(*output_ptr)', '*output_ptr') for x in nest):
      c.bad(w, 'mutable array: the outermost loop runs over `%s`' % [x.start for x in nest if hasattr(x, 'start')][0])
    guard_needed = [t for k, t in conds if 'can_continue_on_miss' in k]
    # size mismatch is an error before anything is written
    mism = False
    for ev, ex in ps:
      idx = [i for i, e in enumerate(ev) if e[0] == 'enter']
      if not idx:
        if any(e[0] == 'return' and 'Error(' in e[1] for e in ev) and any(e[0] == 'cond' and 'total_size' in e[1] and 'input.size()' in e[1] for e in ev):
          mism = True
          cnd = [e for e in ev if e[0] == 'cond'][0]
          if not (re.match(r'^(total_size != input\.size\(\)|input\.size\(\) != total_size)$', cnd[1]) and cnd[2] or
                  re.match(r'^(total_size == input\.size\(\)|input\.size\(\) == total_size)$', cnd[1]) and not cnd[2]):
            c.bad(w, 'mutable array: the size check fails under `%s`' % cnd[1])
        continue
      n += 1
      body_ev = ev[idx[-1] + 1:]
      end = [i for i, e in enumerate(body_ev) if e[0] == 'leave']
      body_ev = body_ev[:end[0]] if end else body_ev
      incs = [i for i, e in enumerate(body_ev) if e[0] == 'expr' and re.match(r'^(\+\+id|id\+\+|id \+= 1|id = id \+ 1)$', e[1])]
      sets = [i for i, e in enumerate(body_ev) if e[0] == 'expr' and '.set_value_access(' in e[1]]
      what = outcome(body_ev)
      if len(incs) != 1:
        c.bad(w, 'mutable array: the index advances %d times for one element when the field is %s' % (len(incs), what))
        continue
      pres = [e for e in body_ev if e[0] == 'cond' and re.match(r'^!?\s*\(?input\.present\(id\)\)?$', e[1])]
      present = (pres[0][2] != pres[0][1].startswith('!')) if pres else None
      hasc = [e for e in body_ev if e[0] == 'cond' and '.has_access(' in e[1]]
      has = None if not hasc else (hasc[-1][2] != hasc[-1][1].strip().startswith('!'))
      if sets:
        if sets[0] > incs[0]:
          c.bad(w, 'mutable array: the index advances before its value is written')
        elif present is not True:
          c.bad(w, 'mutable array: a missing item is written into the proto')
        elif what == 'missing':
          c.bad(w, 'mutable array: written although the path is missing')
        elif guard_needed == [False] and has is not True or not guard_needed:
          c.bad(w, 'mutable array: the last element is written without a presence test although it cannot be created')
        else:
          sm = re.search(r'\.set_value_access\(([^,]*), (.*)\)>$', body_ev[sets[0]][1])
          src = out_name(body_ev) or inner_var(nest)
          if not sm or sm.group(1) != src:
            c.bad(w, 'mutable array: `%s` is written, the path leads to `%s`' % (sm.group(1) if sm else '?', src))
          elif not re.search(r'input\.values\[id\]', sm.group(2)):
            c.bad(w, 'mutable array: the value written is `%s`' % sm.group(2))
          else:
            c.ok('mutable array: item id is written once, then id advances')
      elif present is True and what == 'found' and has is not False:
        c.bad(w, 'mutable array: a present item is not written although the path exists')
      else:
        c.ok('mutable array: nothing written, id advances')
    if mism:
      c.ok('mutable array: size mismatch is an error before the loops')
    else:
      c.bad(w, 'mutable array: a size mismatch is not reported before writing')
    t = text_arg(m)
    if not re.search(r'size_t id = 0;|int64_t id = 0;|auto id = 0;', t):
      c.bad(w, 'mutable array: the index does not start at 0')
    if '_total_size_lambda(<self._multi_elems>' not in t or '(*output_ptr)' not in t:
      c.bad(w, 'mutable array: the expected size is not counted over the same loops')
    last_element(g, w, body, conds)
    for p in find_deep(body, 'set_path_to_field'):
      a = args_of(p, SPTF)
      if a.get('is_mutable', False) is not True:
        c.bad(w, 'mutable array: the path to the written field is a const path')
      if text_arg(a.get('input_name', ())) != inner_var(nest):
        c.bad(w, 'mutable array: the path starts from `%s`, not from the loop variable' % text_arg(a.get('input_name', ())))
    common(g, w, acc, 'mutable array')
  c.count('mutable array paths', n)


# -- lambdas and dispatch -----------------------------------------------------------
def wrappers(g):
  c = g.c
  fn, res = g.ev('Protopath', '_wrap_lambda', [o for o in OPAQUE if o != '_wrap_lambda'])
  w = g.where(fn)
  for conds, v in res:
    d = dict(conds)
    wild, multi, out = d.get('<self._is_wildcard>'), d.get('<self._multi_elems>'), [t for k, t in conds if k.startswith('output_type') or k.startswith('<output_type')]
    t = text_arg(v)
    has_key = bool(re.search(r'absl::string_view \w+', t))
    has_fac = 'RawBufferFactory' in t
    if wild is not None and has_key != wild:
      c.bad(w, 'a %swildcard accessor is wrapped in a lambda with%s a key' % ('' if wild else 'non-', '' if has_key else 'out'))
    elif multi is not None and has_fac != multi:
      c.bad(w, 'a %s accessor is wrapped in a lambda with%s a buffer factory' % ('multi-value' if multi else 'single-value', '' if has_fac else 'out'))
    elif wild is None or multi is None:
      c.undecided(w, 'wrapping lambda under %s' % (conds,))
    elif '<body>' not in t:
      c.bad(w, 'the wrapping lambda drops the body')
    elif '<self._input_type>& input' not in t:
      c.bad(w, 'the wrapping lambda takes `%s`, not the declared input type' % t[:80])
    elif not multi and re.search(r'Is None', str(conds)) and any(not x for k, x in conds if 'Is None' in k) and 'output' not in t:
      c.bad(w, 'the wrapping lambda has no output parameter')
    else:
      c.ok('lambda for wildcard=%s multi=%s' % (wild, multi))
  # dispatch of accessor()
  fn, res = g.ev('Protopath', 'accessor', [o for o in OPAQUE] + ['_size_shape_accessor', '_optional_accessor', '_array_accessor'])
  w = g.where(fn)
  for conds, v in res:
    if v is pystr.RAISED:
      continue
    d = dict(conds)
    multi, size = d.get('<self._multi_elems>'), d.get('<self._is_size>')
    t = show_any(v)
    m = re.match(r'^<self\.(_\w+)\(', t)
    want = None if multi is None else ('_array_accessor' if multi else (None if size is None else ('_size_shape_accessor' if size else '_optional_accessor')))
    if want is None or not m:
      c.undecided(w, 'accessor() under %s is %s' % (conds, t[:60]))
    elif m.group(1) != want:
      c.bad(w, 'a %s %s path is given to %s' % ('multi-value' if multi else 'single-value', 'size' if size else 'value', m.group(1)))
    else:
      c.ok('accessor dispatch %s' % want)
  fn, res = g.ev('Protopath', 'mutable_accessor', [o for o in OPAQUE] + ['_mutable_optional_accessor', '_mutable_array_accessor', 'shape_type'])
  w = g.where(fn)
  for conds, v in res:
    if v is pystr.RAISED:
      continue
    d = dict(conds)
    multi = d.get('<self._multi_elems>')
    m = re.match(r'^<self\.(_\w+)\(', show_any(v))
    if multi is None or not m:
      c.undecided(w, 'mutable_accessor() under %s' % (conds,))
    elif (m.group(1) == '_mutable_array_accessor') != multi:
      c.bad(w, 'a mutable %s path is given to %s' % ('multi-value' if multi else 'single-value', m.group(1)))
    elif d.get('<self._is_wildcard>') is not False or d.get('<self._last_path.is_empty>') is not False:
      c.bad(w, 'a mutable accessor is generated for a wildcard or a repeated primitive path')
    else:
      c.ok('mutable dispatch')


# -- dense array builder ---------------------------------------------------------------
def builder(g):
  c, prog = g.c, g.prog
  mod = next((m for m in prog.mods.values() if m.rel.endswith('codegen/io/array_generator.py')), None)
  c.need(mod is not None, 'the array generator module')
  n = 0
  for cls in mod.classes.values():
    if not cls.bases or 'ArrayBuilderGenerator' not in {b.name for b in cls.bases}:
      continue
    g2 = G(c, prog, mod)
    texts = {}
    for name in ('define_array', 'push_back_empty_item', 'push_back_item', 'return_array'):
      o, fn = cls.find(name)
      env = {a.arg: Sym(a.arg) for a in fn.args.args + fn.args.kwonlyargs}
      env[fn.args.args[0].arg] = Sym('self', cls)
      try:
        r = [(cd, ret[0]) for cd, _, ret in pystr.Ev(prog).block(fn.body, mod, cls, [((), env, None)], 0)]
      except pystr.Unsupported as u:
        c.undecided('%s:%d' % (mod.rel, fn.lineno), str(u))
        return
      texts[name] = ('%s:%d' % (mod.rel, fn.lineno), [text_arg(v) for _, v in r])
    n += 1
    P = '<self.name_prefix>'
    w, defs = texts['define_array']
    # variables defined
    vars_ = set()
    for t in defs:
      for s in t.split(';'):
        m = re.search(r'(?:^|[\s>])(<self\.name_prefix>)?(\w+)(?:\(| = )', re.sub(r'^\s*(using|typename|auto|const|int64_t|size_t)\s', ' ', s.strip()))
      for m in re.finditer(r'(?:using |auto |int64_t |size_t |Builder )(<self\.name_prefix>)?(\w+)\s*(?:=|\()', t):
        vars_.add((bool(m.group(1)), m.group(2)))
    pref = {v for p, v in vars_ if p}
    plain = {v for p, v in vars_ if not p}
    for v in sorted(plain):
      c.bad(w, '%s: the variable `%s` is defined without the name prefix' % (cls.name, v))
    for name, (w2, ts) in texts.items():
      for t in ts:
        for v in sorted(pref):
          for m in re.finditer(r'(?<![\w>:])%s\b' % re.escape(v), t):
            c.bad(w2, '%s.%s uses `%s` without the name prefix: not the variable defined' % (cls.name, name, v), key='%s|%s|%s' % (cls.name, name, v))
            break
          else:
            c.ok('%s.%s: `%s` is prefixed wherever it is used' % (cls.name, name, v))
    for name, val in (('push_back_empty_item', None), ('push_back_item', '<value>')):
      w2, ts = texts[name]
      for t in ts:
        ids = re.findall(r'(%sid\+\+|\+\+%sid)' % (P, P), t)
        if len(ids) != 1:
          c.bad(w2, '%s.%s advances the index %d times' % (cls.name, name, len(ids)))
        else:
          c.ok('%s.%s advances the index once' % (cls.name, name))
        miss = re.findall(r'AddMissed\((.*?)\)', t)
        if val is None:
          if miss not in ([P + 'id++'], [P + 'id']) or (miss == [P + 'id'] and t.index('AddMissed') > t.index(ids[0] if ids else 'AddMissed')):
            c.bad(w2, '%s.%s marks `%s` as missing, not the item appended' % (cls.name, name, miss))
          else:
            c.ok('%s.%s marks its own index as missing' % (cls.name, name))
          if len(re.findall(r'inserter\.(?:SkipN\(1\)|Add\()', t)) != 1:
            c.bad(w2, '%s.%s does not skip exactly one value' % (cls.name, name))
          else:
            c.ok('%s.%s skips one value' % (cls.name, name))
        else:
          if miss:
            c.bad(w2, '%s.%s marks a present item as missing' % (cls.name, name))
          if re.findall(r'inserter\.Add\((.*?)\);', t) not in (['<value>'], ['value']):
            c.bad(w2, '%s.%s adds %s, not the value given' % (cls.name, name, re.findall(r'inserter\.\w+\((.*?)\);', t)))
          else:
            c.ok('%s.%s adds the value given' % (cls.name, name))
    for t in defs:
      for nm in ('bldr', 'bitmap_bldr'):
        m = re.search(r'%s%s\( ?<?total_size_name>?, <?buffer_factory_name>?\)' % (P, nm), t)
        if m:
          c.ok('%s: %s sized by the total' % (cls.name, nm))
        else:
          c.bad(w, '%s.define_array does not size `%s` by the total it is given' % (cls.name, nm))
      if not re.search(r'%sid = 0' % P, t):
        c.bad(w, '%s.define_array does not start the index at 0' % cls.name)
    w3, ts = texts['return_array']
    for t in ts:
      if re.search(r'%sbldr\)?\.Build\(\).*%sbitmap_bldr\)?\.Build\(\)' % (P, P), t):
        c.ok('%s.return_array returns values and bitmap' % cls.name)
      else:
        c.bad(w3, '%s.return_array returns `%s`' % (cls.name, t))
  c.need(n >= 1, 'array builder generators')


def run(c):
  prog = pyan.Program()
  mod = next((m for m in prog.mods.values() if m.rel.endswith('codegen/io/protopath.py')), None)
  c.need(mod is not None, 'the protopath module')
  g = G(c, prog, mod)
  for f in (field_path, optional, default_value, size_shape, array, total_size, loop_helpers, mutable_optional, mutable_array, wrappers, builder):
    f(g)


report.main('G05', RULE, run)
