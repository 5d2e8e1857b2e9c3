"""E04: combining statuses loses no error and invents none; structured errors keep their parts."""
import itertools
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import absint
from absint import Aff, Ptr, Ref, Obj, Const, Top, Fn, Unsupported
import containers
from containers import K, idx
import facts
import parcases
import rawbuf
import report
import statuses
from statuses import OK, is_status
import tree as T

RULE = ('Abstract interpretation of util/status.h and util/status.cc from witness calls: for every pattern of successes and distinct errors among the arguments the result is '
        'the first error in argument order, or all values in order, and the function wrapped is called exactly once iff nothing failed; for every form of a structured error '
        '(with and without payload and cause) each helper keeps or replaces exactly the parts documented, keeps the code, never structures an OK status and reads nothing moved away.')
EVENTS = ('bad-access', 'use-after-move', 'null-deref', 'use-after-free', 'out-of-bounds')
F = None
FN = {}


def S(v):
  return Const(('str', tuple(v)))


def is_str(v):
  return isinstance(v, Const) and isinstance(v.v, tuple) and v.v[0] == 'str'


def make(code, msg, payloads=(), locs=()):
  return Const(('status', ('S', code, tuple(msg), tuple(payloads), tuple(locs))))


def parts(v):
  """(code, message, payloads, locations) of an error."""
  return v.v[1][1:] if is_status(v) and isinstance(v.v[1], tuple) and v.v[1][0] == 'S' else None


class I(statuses.Statuses, rawbuf.Optionals, containers.Containers):
  DEPTH = 40

  def text(self, v, st):
    if isinstance(v, Ref) and v.loc[0] == 'G' and v.loc not in st.heap:
      return (v.loc,)
    v = self.load(v, st)
    if is_str(v):
      return ((v.v[1],) if v.v[1] else ()) if isinstance(v.v[1], str) else v.v[1]
    if isinstance(v, Const) and isinstance(v.v, str):
      return (v.v,) if v.v else ()
    if isinstance(v, Aff) and v.const() is not None:
      return (str(v.const()),)
    if v == Const(('moved',)):
      self.event(st, 'use-after-move', 0, 'a string')
      return ()
    raise Unsupported('text %r' % (v,))

  def status_of(self, v, n, st):
    v = self.load(v, st)
    if v == Const(('status', 'moved')):
      self.event(st, 'use-after-move', n.get('l', 0), 'a status')
    return v

  def any_of(self, v, st):
    if isinstance(v, (Ref, Obj)):
      l = self.target(v, st) if isinstance(v, Ref) else v.loc
      m = self.F.records.get(getattr(st.heap.get(l + ('$',)), 'v', None) or '')
      keys = sorted((k[len(l):], x) for k, x in st.heap.items() if k[:len(l)] == l and len(k) == len(l) + 1 and k[-1] != '$')
      if keys and l not in st.heap:
        return Const(('any', tuple((k[0], x) for k, x in keys)))
    v = self.load(v, st)
    return v if isinstance(v, Const) and isinstance(v.v, tuple) and v.v[0] == 'any' else Const(('any', v))

  def e_Init(self, n, st):
    if (n.get('t') or '').endswith(']') and not n.get('cls'):
      n = dict(n, t='std::initializer_list<>', ct='std::initializer_list<>')
    return super().e_Init(n, st)

  def unknown(self, n, obj, args, st):
    raise Unsupported('call of %s at line %s' % (T.callee_name(n) or n.get('cls'), n.get('l')))

  def construct0(self, n, args, st):
    cls = n.get('cls') or ''
    if cls == 'absl::Status' and not args:
      return [(OK, st)]
    if cls == 'absl::Status':
      if len(args) >= 2:
        code = self.load(args[0], st)
        if not isinstance(code, Const):
          raise Unsupported('status code')
        return [(OK if code == Const('OK') else make(code.v, self.text(args[1], st)), st)]
      if args:
        v = self.status_of(args[0], n, st)
        if not is_status(v):
          raise Unsupported('status %r' % (v,))
        if n.get('move') and isinstance(args[0], Ref) and T.is_move(n['a'][0]):
          self.store(self.target(args[0], st), Const(('status', 'moved')), st)
        return [(v, st)]
    if cls in ('std::basic_string', 'std::basic_string_view', 'absl::AlphaNum', 'absl::string_view'):
      if not args:
        return [(S(()), st)]
      v = S(self.text(args[0], st))
      if n.get('move') and isinstance(args[0], Ref) and T.is_move(n['a'][0]):
        self.store(self.target(args[0], st), Const(('moved',)), st)
      return [(v, st)]
    if cls == 'std::any':
      if not args:
        return [(Const(('any', None)), st)]
      v = self.any_of(args[0], st)
      if n.get('move') and isinstance(args[0], Ref) and T.is_move(n['a'][0]):
        self.store(self.target(args[0], st), Const(('any', 'moved')), st)
      return [(v, st)]
    if cls in ('absl::Cord', 'absl::SourceLocation', 'absl::FunctionRef'):
      return [(self.load(args[0], st) if args else Const((cls,)), st)]
    return super().construct0(n, args, st)

  def model(self, name, n, obj, args, st):
    sh, cls = T.short(name), n.get('cls') or ''
    if n['k'] == 'OCall' and obj is None and args:
      obj, args = args[0], args[1:]
    if name in ('witness::called', 'witness::called_or'):
      v = [self.load(a, st) for a in args]
      self.event(st, 'called', *v)
      if name == 'witness::called' or self.OUT != Const(('result',)):
        return [(Const(('result',)) if name == 'witness::called' else self.OUT, st)]
      l = st.fresh('so')
      st.heap[l + ('$',)] = Const('absl::StatusOr')
      st.heap[l + ('v',)] = Const(('result',))
      return [(Obj(l, n), st)]
    if sh == 'WrapStructuredErrorToCord':
      l = self.obj_loc(args[0], n, st)
      p = st.heap.get(l + ('p',))
      if not isinstance(p, Ptr) or p.loc is None:
        raise Unsupported('structured error')
      st.heap[l + ('p',)] = Ptr(None)
      o = st.fresh('opt')
      st.heap[o + ('$has',)] = True
      st.heap[o + ('$val',)] = Const(('cord', p.loc))
      return [(Obj(o, n), st)]
    if sh == 'UnwrapStructuredErrorFromCord':
      v = self.load(args[0], st)
      return [(Ptr(v.v[1]), st)]
    if cls == 'absl::Status' and obj is not None and n['k'] in ('MCall', 'OCall'):
      q = self.load(obj, st)
      if isinstance(q, Ptr):
        obj = Ref(self.obj_loc(q, n, st))
      v = self.status_of(obj, n, st)
      p = parts(v)
      if sh == 'operator=':
        self.store(self.target(obj, st), self.status_of(args[0], n, st), st)
        if T.is_move(n['a'][-1]) and isinstance(args[0], Ref):
          self.store(self.target(args[0], st), Const(('status', 'moved')), st)
        return [(obj, st)]
      if sh == 'code':
        return [(Const(p[0] if p else 'OK'), st)]
      if sh == 'message':
        return [(S(p[1] if p else ()), st)]
      if sh == 'SetPayload':
        if p:
          u, d = self.text(args[0], st), self.load(args[1], st)
          self.store(self.target(obj, st), make(p[0], p[1], tuple(x for x in p[2] if x[0] != u) + ((u, d),), p[3]), st)
        return [(Top('void'), st)]
      if sh == 'GetPayload':
        d = [x[1] for x in (p[2] if p else ()) if x[0] == self.text(args[0], st)]
        o = st.fresh('opt')
        st.heap[o + ('$has',)] = bool(d)
        if d:
          st.heap[o + ('$val',)] = d[0]
        return [(Obj(o, n), st)]
      if sh == 'ForEachPayload':
        fn = self.load(args[0], st)
        if not isinstance(fn, Fn):
          raise Unsupported('ForEachPayload')
        cur = [st]
        for u, d in (p[2] if p else ()):
          cur = [s2 for s in cur for _, s2 in self.apply_lambda(fn, [S(u), d], s)]
        return [(Top('void'), s) for s in cur]
      if sh == 'GetSourceLocations':
        l = st.fresh('locs')
        self.new_vec(st, l, [Const(x) for x in (p[3] if p else ())])
        return [(Obj(l), st)]
      if sh == 'AddSourceLocation':
        if p:
          self.store(self.target(obj, st), make(p[0], p[1], p[2], p[3] + (self.load(args[0], st).v,)), st)
        return [(Top('void'), st)]
    if name in ('absl::StrCat', 'absl::debian3::StrCat') or sh == 'StrCat':
      return [(S(x for a in args for x in self.text(a, st)), st)]
    if sh == 'StrAppend':
      p = self.load(args[0], st)
      self.store(p.loc, S(self.text(Ref(p.loc), st) + tuple(x for a in args[1:] for x in self.text(a, st))), st)
      return [(Top('void'), st)]
    if cls in ('std::basic_string', 'std::basic_string_view', 'absl::string_view') and obj is not None:
      if sh in ('empty',):
        return [(not self.text(obj, st), st)]
      if sh.startswith('operator basic_string_view') or sh in ('c_str', 'data'):
        return [(S(self.text(obj, st)), st)]
      if sh in ('append', 'operator+='):
        self.store(self.target(obj, st), S(self.text(obj, st) + self.text(args[0], st)), st)
        return [(obj, st)]
      if sh == 'operator=':
        v = S(self.text(args[0], st))
        if T.is_move(n['a'][-1]) and isinstance(args[0], Ref):
          self.store(self.target(args[0], st), Const(('moved',)), st)
        self.store(self.target(obj, st), v, st)
        return [(obj, st)]
    if name == 'std::operator+' and len(args) == 1:
      return [(S(self.text(obj, st) + self.text(args[0], st)), st)]
    if cls == 'std::any' and obj is not None:
      v = self.load(obj, st)
      if sh == 'has_value':
        if v == Const(('any', 'moved')):
          self.event(st, 'use-after-move', n.get('l', 0), 'a payload')
        return [(v != Const(('any', None)), st)]
      if sh == 'operator=':
        x = self.any_of(args[0], st)
        if x == Const(('any', 'moved')):
          self.event(st, 'use-after-move', n.get('l', 0), 'a payload')
        if T.is_move(n['a'][-1]) and isinstance(args[0], Ref):
          self.store(self.target(args[0], st), Const(('any', 'moved')), st)
        self.store(self.target(obj, st), x, st)
        return [(obj, st)]
      if sh in ('reset',):
        self.store(self.target(obj, st), Const(('any', None)), st)
        return [(Top('void'), st)]
    if cls == 'std::tuple' and n['k'] == 'Ctor' and not n.get('copy') and not n.get('move') and args:
      l = st.fresh('tuple')
      st.heap[l + ('$',)] = Const('std::tuple')
      for i, a in enumerate(args):
        self.init_at(l + (('tup', i),), self.load(a, st), st)
      return [(Obj(l, n), st)]
    if name == 'std::make_unique' and not args and 'StructuredErrorPayload' in (n.get('t') or ''):
      l, u = st.fresh('error'), st.fresh('up')
      st.heap[l + ('$',)] = Const('arolla::status_internal::StructuredErrorPayload')
      st.heap[l + ('payload',)] = Const(('any', None))
      st.heap[l + ('cause',)] = OK
      st.heap[u + ('$c',)] = Const('up')
      st.heap[u + ('p',)] = Ptr(l)
      return [(Obj(u, n), st)]
    if n['k'] == 'Ctor' and cls in ('absl::StatusOr', 'absl::StatusBuilder', 'absl::status_macro_shim::Adaptor'):
      return self.status_model(name, n, obj, args, st)
    return super().model(name, n, obj if n['k'] != 'OCall' else None, args if n['k'] != 'OCall' or obj is None else [obj] + list(args), st)


def new():
  it = I(F)
  it.OUT = Const(('result',))
  return it, absint.State()


def put(it, st, name, v, kind='or'):
  """An argument in memory: 'e…' an error, else a value."""
  loc = (name,)
  if kind == 'int':
    st.heap[loc] = Const(('val', name))
  elif v:
    st.heap[loc] = make('code_' + v, (v,))
  elif kind == 'status':
    st.heap[loc] = OK
  else:
    st.heap[loc + ('$',)] = Const('absl::StatusOr')
    st.heap[loc + ('v',)] = Const(('val', name))
  return Ref(loc)


def outcome(it, v, s):
  """('error', message) or ('value', value) or ('ok',)"""
  v = it.load(v, s)
  if is_status(v):
    return ('ok',) if v == OK else ('error', (parts(v) or (None, v.v))[1])
  if isinstance(v, (Obj, Ref)):
    l = v.loc
    if l + ('$',) in s.heap and s.heap[l + ('$',)] == Const('absl::StatusOr'):
      return ('value', value(it, l + ('v',), s))
  raise Unsupported('result %r' % (v,))


def value(it, l, s):
  k = it.kind(l, s)
  if k == 'vec':
    return [it.load(Ref(x), s) for x in it.elements(Ref(l), s)]
  if k in ('map',):
    return {it.load(Ref(l + (('ent', i), 'first')), s): it.load(Ref(l + (('ent', i), 'second')), s) for i in it.entries(l, s)}
  if s.heap.get(l + ('$',)) == Const('std::tuple'):
    return [it.load(Ref(x), s) for x in it.parts(l, 3, s)]
  return it.load(Ref(l), s)


def case(t):
  bad = []
  judge(t, bad)
  return [t[0] + ': ' + x for x in dict.fromkeys(bad)]


FORMS = {'check3': ('status', 'or', 'int', 'or'), 'first3': ('status', 'status', 'status'), 'lift3': ('or', 'or', 'or'), 'call_plain': ('or', 'int', 'or'),
         'call_fallible': ('or', 'int', 'or'), 'call_made': ('or', 'int', 'or'), 'call_wide': ('or', 'int', 'or', 'or'), 'lift_pairs': ('or', 'or', 'or', 'or')}
V = lambda x: Const(('val', x))


def judge(t, bad):
  fn, a = t[0], t[1:]
  it, st = new()

  def call(*args):
    outs = it.call_fn(FN[fn], None, list(args), st)
    if not outs:
      raise facts.AnalysisBroken('%s does not return' % fn)
    for v, s in outs:
      for e in s.log:
        if e[0] in EVENTS:
          bad.append('%s%s' % (e[0], ' of ' + str(e[-1]) if len(e) > 2 else ''))
    return outs

  def expect(outs, want, what):
    for v, s in outs:
      got = outcome(it, v, s)
      if got[0] != want[0]:
        bad.append('%s: %s instead of %s' % (what, {'ok': 'success', 'value': 'success', 'error': 'an error'}[got[0]], {'ok': 'success', 'value': 'success', 'error': 'an error'}[want[0]]))
      elif got != want:
        bad.append('%s: another %s than the %s' % (what, got[0], 'first error' if got[0] == 'error' else 'values given, in order'))

  if fn in FORMS:
    kinds, fail = FORMS[fn], a[0]
    args = [put(it, st, 'x%d' % i, 'e%d' % i if i in fail else '', k) for i, k in enumerate(kinds)]
    what = 'failed arguments %s' % (', '.join(map(str, fail)) or 'none')
    if fn == 'call_fallible' and a[1]:
      it.OUT = make('code_f', ('f',))
    outs = call(*args)
    vals = [V('x%d' % i) for i in range(len(kinds))]
    if fail:
      want = ('error', ('e%d' % fail[0],))
    elif fn in ('check3', 'first3'):
      want = ('ok',)
    elif fn == 'lift3':
      want = ('value', vals)
    elif fn == 'lift_pairs':
      want = ('value', {vals[0]: vals[1], vals[2]: vals[3]})
    elif fn == 'call_fallible' and a[1]:
      want = ('error', ('f',))
    else:
      want = ('value', Const(('result',)))
    expect(outs, want, what)
    if fn.startswith('call_'):
      for v, s in outs:
        calls = [e[1:] for e in s.log if e[0] == 'called']
        if fail and calls:
          bad.append('%s: the function is called' % what)
        elif not fail and len(calls) != 1:
          bad.append('%s: the function is called %d times' % (what, len(calls)))
        elif not fail and list(calls[0]) != (vals if fn != 'call_wide' else [vals[3], K(0), K(0)]):
          bad.append('%s: the function is not called on the arguments in order' % what)
  elif fn in ('check0', 'first0'):
    expect(call(), ('ok',), 'no arguments')
  elif fn in ('lift_vector', 'lift_span', 'lift_map'):
    n, fail = a
    refs = [put(it, st, 'x%d' % i, 'e%d' % i if i in fail else '') for i in range(n)]
    vals = [it.load(r, st) for r in refs]
    loc = ('arg',)
    if fn == 'lift_map':
      it.new_map(st, loc, [(K(i), v) for i, v in enumerate(vals)])
    else:
      it.new_vec(st, loc, vals)
    arg = Ref(loc)
    if fn == 'lift_span':
      it.new_span(st, ('span',), Ptr(loc + (idx(0),)), K(n))
      arg = Ref(('span',))
    outs = call(arg)
    what = '%d elements, failed %s' % (n, ', '.join(map(str, fail)) or 'none')
    if fn == 'lift_map' and fail:
      for v, s in outs:
        got = outcome(it, v, s)
        if got not in [('error', ('e%d' % i,)) for i in fail]:
          bad.append('%s: not one of the errors' % what)
    else:
      want = [V('x%d' % i) for i in range(n)]
      expect(outs, ('error', ('e%d' % fail[0],)) if fail else ('value', dict(zip([K(i) for i in range(n)], want)) if fn == 'lift_map' else want), what)
  elif fn in ('ok_status', 'ok_or', 'ok_int', 'get_status', 'get_or', 'get_int'):
    kind, fail = fn.split('_')[1], a[0]
    outs = call(put(it, st, 'x', 'e' if fail else '', kind))
    for v, s in outs:
      if fn.startswith('ok'):
        for b, _ in it.truth(v, s):
          if b == fail:
            bad.append('%s counts as %s' % ('a failure' if fail else 'a success', 'success' if b else 'failure'))
      else:
        expect([(v, s)], ('error', ('e',)) if fail else ('ok',), 'failed' if fail else 'not failed')
  else:
    structured(it, st, fn, a, call, bad)


URL = None


def attach(it, st, name, code, payload, cause):
  """An error that is structured when it has a payload or a cause (True: an empty structure)."""
  if code == 'OK':
    return OK
  if payload is None and cause is None:
    return make(code, (name,), [(('other',), Const(('cord', ('other',))))], ['loc'])
  l = ('$' + name,)
  st.heap[l + ('$',)] = Const('arolla::status_internal::StructuredErrorPayload')
  st.heap[l + ('payload',)] = Const(('any', payload if payload != '' else None))
  st.heap[l + ('cause',)] = make('code_' + cause, (cause,)) if cause else OK
  return make(code, (name,), [(('other',), Const(('cord', ('other',)))), (URL, Const(('cord', l)))], ['loc'])


def read(v, s):
  """(code, message, payload, cause, other payloads)"""
  p = parts(v)
  if p is None:
    return v
  d = [x for u, x in p[2] if u == URL]
  o = tuple(x for x in p[2] if x[0] != URL)
  if not d:
    return p[0], p[1], None, OK, o
  l = d[0].v[1]
  return p[0], p[1], s.heap.get(l + ('payload',), Const(('any', None))).v[1], s.heap.get(l + ('cause',), OK), o


def structured(it, st, fn, a, call, bad):
  code, payload, cause = a[:3]
  v = attach(it, st, 'm', code, payload, cause)
  old = read(v, st)
  st.heap[('s',)] = v
  arg = Ref(('s',)) if fn in ('with_message', 'cause', 'payload') else v
  what = 'an OK status' if code == 'OK' else 'an error with %s and %s' % ('a payload' if payload else 'no payload', 'a cause' if cause else 'no cause')
  c2 = make('code_new', ('new cause',)) if len(a) > 3 and a[3] else OK
  new_cause = c2
  if fn in ('cause', 'payload'):
    for r, s in call(arg):
      r = it.load(r, s)
      want = (OK if v == OK else old[3]) if fn == 'cause' else (None if v == OK else old[2])
      if not isinstance(r, Ptr):
        raise Unsupported('result %r' % (r,))
      if want in (OK, None):
        if r.loc is not None:
          bad.append('%s: a %s is found' % (what, fn))
      elif r.loc is None:
        bad.append('%s: the %s is not found' % (what, fn))
      elif it.load(Ref(r.loc), s) != (want if fn == 'cause' else Const(('any', want))):
        bad.append('%s: another %s is found' % (what, fn))
    return
  text = {}
  if fn == 'with_location':
    st.heap[('l', '$')] = Const('arolla::SourceLocationPayload')
    for f in ('function_name', 'file_name', 'line_text'):
      st.heap[('l', f)] = S((f,) if f in a[3] else ())
    for f in ('line', 'column'):
      st.heap[('l', f)] = K(7 if f in a[3] else 0)
    given = tuple(sorted((k[-1], x) for k, x in st.heap.items() if k[0] == 'l' and k[-1] != '$'))
  args = {'with_cause': [c2], 'with_payload': [Const(('val', 'p'))], 'with_both': [Const(('val', 'p')), c2], 'with_message': [S(('text',))], 'with_note': [S(('note',))],
          'with_location': [Obj(('l',))]}[fn]
  for r, s in call(arg, *args):
    r = it.load(r, s)
    if v == OK:
      if r != OK:
        bad.append('%s: does not stay OK' % what)
      continue
    if parts(r) is None:
      bad.append('%s: the error is lost' % what)
      continue
    got = read(r, s)
    want_msg, want_pay, want_cause = old[1], old[2], old[3]
    if fn in ('with_cause', 'with_both'):
      want_cause = new_cause
    if fn in ('with_payload', 'with_both'):
      want_pay = V('p')
    if fn == 'with_message':
      want_msg = ('text',)
    if fn in ('with_note', 'with_location'):
      want_cause = v
      want_pay = (('note', S(('note',))),) if fn == 'with_note' else given
    if got[0] != old[0]:
      bad.append('%s: the code changes' % what)
    if fn in ('with_note', 'with_location'):
      if got[1][:1] != old[1] or not set(('note',) if fn == 'with_note' else [x for x in a[3] if x in ('function_name', 'file_name', 'line_text')]) <= set(got[1]):
        bad.append('%s: the message is not the original one followed by what is added' % what)
    elif got[1] != want_msg:
      bad.append('%s: the message is not the %s' % (what, 'given one' if fn == 'with_message' else 'original one'))
    if got[2] != want_pay:
      bad.append('%s: the payload is %s' % (what, 'lost' if got[2] is None else 'not the %s' % ('one given' if want_pay != old[2] else 'original one')))
    if got[3] != want_cause:
      bad.append('%s: the cause is %s' % (what, 'lost' if got[3] == OK else 'not the %s' % ('one given' if want_cause != old[3] else 'original one')))
    if fn not in ('with_note', 'with_location'):
      if got[4] != old[4]:
        bad.append('%s: other payloads change' % what)


def subsets(n):
  return [f for k in range(n + 1) for f in itertools.combinations(range(n), k)]


def cases():
  for fn, kinds in FORMS.items():
    for fail in subsets(len(kinds)):
      if all(kinds[i] != 'int' for i in fail):
        yield (fn, fail) + ((False,) if fn == 'call_fallible' else ())
        if fn == 'call_fallible' and not fail:
          yield (fn, fail, True)
  yield ('check0',)
  yield ('first0',)
  for fn in ('lift_vector', 'lift_span', 'lift_map'):
    for n in range(5):
      for fail in subsets(n):
        yield (fn, n, fail)
  for fn in ('ok_status', 'ok_or', 'ok_int', 'get_status', 'get_or', 'get_int'):
    for fail in (False, True):
      if not (fail and fn.endswith('int')):
        yield (fn, fail)
  bases = [('OK', None, None)] + [('code_m', p, c) for p in (None, '', 'payload') for c in (None, '', 'why')]
  for b in bases:
    for fn in ('with_cause', 'with_both'):
      for c in (False, True):
        yield (fn,) + b + (c,)
    for fn in ('with_payload', 'with_message', 'with_note', 'cause', 'payload'):
      if fn != 'with_note' or b[0] != 'OK':
        yield (fn,) + b
    if b[0] != 'OK':
      fs = ('function_name', 'file_name', 'line', 'column', 'line_text')
      for fail in subsets(5):
        yield ('with_location',) + b + (tuple(fs[i] for i in fail),)


NAMES = tuple(FORMS) + ('check0', 'first0', 'lift_vector', 'lift_span', 'lift_map', 'ok_status', 'ok_or', 'ok_int', 'get_status', 'get_or', 'get_int', 'with_cause', 'with_payload', 'with_both',
                        'with_message', 'with_note', 'with_location', 'cause', 'payload')


def load():
  global F, URL
  F = facts.load(facts.Scope(inst=['arolla/util/status', '@tu/'], extra=[os.path.join(facts.VERIF, 'tu', 'status.cc')]))
  FN.clear()
  for f in F.functions:
    if f['n'].startswith('witness::') and f['kind'] == 'plain':
      FN[T.short(f['n'])] = f
  u, = F.fn('arolla::status_internal::AttachStructuredError')
  it, st = new()
  st.heap[('s',)] = make('c', ('m',))
  st.heap[('u', '$c')] = Const('up')
  st.heap[('u', 'p')] = Ptr(('$e',))
  for _, s in it.call_fn(u, None, [Ref(('s',)), Ref(('u',))], st):
    p = parts(s.heap[('s',)])
    if not p or len(p[2]) != 1:
      raise facts.AnalysisBroken('how an error is attached')
    URL = p[2][0][0]
  return F


def site(name):
  for x in T.walk_fn(FN[name]):
    c = x.get('fn') or ''
    for f in F.functions + F.insts:
      if f['file'].startswith('arolla/util/status') and f['n'] == c and f['u'] in (x.get('u'), x.get('iu')):
        return '%s:%d' % (f['file'], f['l'])
  return 'arolla/util/status.h'


def main(c):
  load()
  parcases.check(c, case, list(cases()), NAMES, FN, {f: site(f) for f in NAMES if f in FN})


if __name__ == '__main__':
  report.main('E04', RULE, main)
