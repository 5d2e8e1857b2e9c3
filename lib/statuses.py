"""absl::Status, StatusOr and the status macros for the abstract interpreter."""
from absint import Aff, Ptr, Ref, Obj, Const, Top, Unsupported
import tree as T

OK = Const(('status', 'ok'))
# formatting: no effect on what is analysed
PURE = ('absl::StrFormat', 'absl::StrCat', 'absl::StrJoin', 'arolla::TypeName', 'absl::CEscape', 'absl::Utf8SafeCHexEscape', 'absl::CHexEscape', 'arolla::JoinTypeNames', 'arolla::FormatTypeVector',
        'absl::string_view', 'std::basic_string_view', 'std::to_string', 'arolla::Truncate')


def is_status(v):
  return isinstance(v, Const) and isinstance(v.v, tuple) and v.v[0] == 'status'


def error(what):
  return Const(('status', what))


class Statuses:
  """Mixin, before the interpreter in the MRO."""

  def s_Switch(self, n, st):
    out = []
    for v, s in self.rv(n['cond'], st):
      items = []

      def flat(x):
        if x['k'] in ('Case', 'Default'):
          items.append(('label', x))
          for y in ([x['s']] if x.get('s') else T.children(x)[-1:]):
            flat(y)
        else:
          items.append(('stmt', x))
      b = n['body']
      for x in (b['c'] if b['k'] == 'Block' else [b]):
        flat(x)
      dflt = [i for i, (k, x) in enumerate(items) if k == 'label' and x['k'] == 'Default']
      cases = [i for i, (k, x) in enumerate(items) if k == 'label' and x['k'] == 'Case']
      if not cases and len(dflt) == 1:
        starts = dflt
      elif isinstance(v, Aff) and v.const() is not None:
        starts = []
        for i in cases:
          e = [r for r, _ in self.rv(items[i][1]['v'] if isinstance(items[i][1].get('v'), dict) else T.children(items[i][1])[0], s.clone())]
          if len(e) != 1 or not isinstance(e[0], Aff) or e[0].const() is None:
            raise Unsupported('switch label')
          if e[0] == v:
            starts.append(i)
        starts = starts or dflt or [len(items)]
      elif isinstance(v, Const):
        starts = []
        for i in cases:
          e = [r for r, _ in self.rv(T.children(items[i][1])[0], s.clone())]
          if e == [v]:
            starts.append(i)
        starts = starts or dflt or [len(items)]
      else:
        starts = sorted(set(cases) | set(dflt or [len(items)]))
      for i in starts[:1] if isinstance(v, (Aff, Const)) else starts:
        cur = [s.clone()]
        for k, x in items[i:]:
          if k == 'label':
            continue
          nxt = []
          for s1 in cur:
            for kind, rv, s2 in self.st(x, s1):
              if kind == 'fall':
                nxt.append(s2)
              elif kind == 'brk':
                out.append(('fall', None, s2))
              else:
                out.append((kind, rv, s2))
          cur = nxt
        out += [('fall', None, s1) for s1 in cur]
    return out

  def std_model(self, name, n, obj, args, st):
    r = self.status_model(name, n, obj, args, st)
    return r if r is not None else super().std_model(name, n, obj, args, st)

  def status_model(self, name, n, obj, args, st):
    sh = T.short(name)
    cls = n.get('cls') or ''
    if name in ('absl::OkStatus',):
      return [(OK, st)]
    if name.startswith('absl::') and name.endswith('Error') and n['k'] == 'Call' and 'Status' in (n.get('rt') or ''):
      return [(error(sh[:-5]), st)]
    if cls in ('absl::Status', 'absl::StatusBuilder', 'absl::status_macro_shim::Adaptor'):
      if n['k'] == 'Ctor':
        v = self.load(args[0], st) if args else OK
        if not args and cls == 'absl::StatusBuilder':
          return None
        if isinstance(v, Const) and not is_status(v):
          v = error(str(v.v))        # from a status code
        return [(v if is_status(v) else Top('absl::Status'), st)]
      if obj is not None or n['k'] == 'OCall':
        v = self.load(obj if obj is not None else args[0], st)
        if isinstance(v, Ptr) and n.get('arrow'):
          v = self.load(Ref(self.obj_loc(v, n, st)), st) if v.loc is not None else Top('absl::Status')
        if sh in ('ok', 'operator bool'):
          return [(v == OK, st)] if is_status(v) else [(Top('bool'), st)]
        if sh == 'operator=' or n.get('op') == '=':
          self.store(self.target(obj, st), self.load(args[0], st), st)
          return [(obj, st)]
        if sh == 'Update':
          if v == OK:
            self.store(self.target(obj, st), self.load(args[0], st), st)
          return [(Top('void'), st)]
        if sh in ('Consume', 'SetPrepend', 'SetAppend', 'With', 'status') or sh.startswith(('operator Status', 'operator<<', 'operator absl::Status')) or n.get('op') == '<<':
          return [(v, st)]
        if sh in ('message', 'code', 'ToString', 'GetPayload', 'SetPayload', 'raw_code', 'IgnoreError'):
          return [(Top(n.get('t')), st)]
    if sh == 'operator<<' and n['k'] == 'OCall' and 'StatusBuilder' in (n.get('t') or ''):
      return [(self.load(args[0], st), st)]
    if cls in ('absl::StatusOr', 'absl::statusor_shim::StatusOrBase') or cls.startswith('absl::internal_statusor'):
      return self.status_or(sh, n, obj, args, st)
    if any(name == p or name.startswith(p + '::') for p in PURE) or cls in ('absl::str_format_internal::FormatSpecTemplate', 'absl::AlphaNum'):
      return [(Top(n.get('t')), st)]
    return None

  def status_or(self, sh, n, obj, args, st):
    if n['k'] == 'Ctor':
      v = args[0] if args else Top('absl::Status')
      lv = self.load(v, st)
      if n.get('copy') or n.get('move'):
        return [(v if isinstance(v, Obj) else lv, st)] if not isinstance(v, Ref) else None
      if is_status(lv):
        return [(lv, st)]
      if isinstance(lv, Top) and 'Status' in str(lv.t):
        raise Unsupported('a status of unknown outcome at line %s' % n.get('l'))
      loc = st.fresh('so')
      st.heap[loc + ('$',)] = Const('absl::StatusOr')
      ref = (n.get('ta') or [''])[0] if isinstance(n.get('ta'), list) else ''
      if isinstance(v, Obj):
        self.copy_obj(v.loc, loc + ('v',), st)
        st.temps = [t for t in st.temps if t[0] != v.loc]
        st.heap[loc + ('v', '$o')] = Const('obj')
      elif isinstance(v, Ref) and ' &>' in (n.get('t') or ''):
        st.heap[loc + ('v',)] = Const(('ref', v.loc))
      elif isinstance(lv, Obj):
        self.copy_obj(lv.loc, loc + ('v',), st)
      elif isinstance(v, Ref) and self.target(v, st) + ('$c',) in st.heap:
        self.copy_obj(self.target(v, st), loc + ('v',), st)
      else:
        st.heap[loc + ('v',)] = lv
      return [(Obj(loc, n), st)]
    o = self.load(obj, st) if obj is not None else None
    if is_status(o):
      if sh == 'ok':
        return [(False, st)]
      if sh == 'status':
        return [(o, st)]
      self.event(st, 'bad-access', n.get('l', 0), 'the value of a failed StatusOr')
      return [(Top(n.get('t')), st)]
    l = self.obj_loc(obj, n, st) if obj is not None else None
    if l is None or st.heap.get(l + ('$',)) != Const('absl::StatusOr'):
      return None
    if sh == 'ok':
      return [(True, st)]
    if sh == 'status':
      return [(OK, st)]
    if sh in ('value', 'operator*', 'operator->', 'ValueOrDie') or n.get('op') in ('*', '->'):
      v = st.heap.get(l + ('v',))
      if isinstance(v, Const) and isinstance(v.v, tuple) and v.v[0] == 'ref':
        return [(Ref(v.v[1]), st)]
      r = l + ('v',)
      return [(Ptr(r) if sh == 'operator->' or n.get('op') == '->' else Ref(r), st)]
    return None
