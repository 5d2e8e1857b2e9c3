"""U03: random-access algebra of the array iterator, in an affine domain."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import absint
from absint import Aff, Ptr, Ref, Obj
import facts
import report
import tree as T

RULE = ('Every operator of the array iterator is evaluated by abstract interpretation in an affine domain over symbolic '
        'positions p, q and offset n (wrap-around arithmetic, all signs of p-q, all signs of n); the element reached, the '
        'difference and each comparison must equal the position algebra.')
BIG = 2**61


class I(absint.Interp):
  known = ()

  def rep(self, a, t, st):
    r = absint.int_range(t)
    for k in self.known:   # positions are valid: they fit every 64-bit type
      if a == k and r and r[1] >= 2**63 - 1:
        return a
    return super().rep(a, t, st)

  def model(self, name, n, obj, args, st):
    if name == 'witness::Arr::operator[]':
      a = obj.loc if isinstance(obj, (Ref, Obj)) else None
      return [(Ref(('elem', a, self.load(args[0], st))), st)]




def run(c):
  F = facts.load(facts.Scope(inst=['arolla/util/iterator.h', '@tu/'], extra=[os.path.join(facts.VERIF, 'tu', 'iterator.cc')]))
  wit = {T.short(f['n']): f for f in F.functions if f['n'].startswith('witness::')}
  p, q, n = Aff({'p': 1}), Aff({'q': 1}), Aff({'n': 1})
  one = Aff((), 1)
  want = {
      'deref': p, 'arrow': p, 'index': p.add(n), 'plus': p.add(n), 'plus_keeps': p, 'rplus': p.add(n), 'minus': p.add(n, -1),
      'addassign': p.add(n), 'addassign_ret': p.add(n), 'subassign': p.add(n, -1), 'subassign_ret': p.add(n, -1),
      'preinc': p.add(one), 'preinc_ret': p.add(one), 'predec': p.add(one, -1), 'predec_ret': p.add(one, -1),
      'postinc': p.add(one), 'postinc_ret': p, 'postdec': p.add(one, -1), 'postdec_ret': p, 'copied': p,
  }
  rel = {'eq': '=', 'ne': '<>', 'lt': '<', 'gt': '>', 'le': '<=', 'ge': '>='}
  same = ['preinc_same', 'predec_same', 'add_same', 'sub_same', 'default_eq']
  c.need(set(wit) >= set(want) | set(rel) | set(same) | {'diff'}, 'witness functions missing')
  hdr = [f for f in F.insts if f['file'] == 'arolla/util/iterator.h']
  c.need(len(hdr) >= 15, 'iterator operators not found')
  at = {}
  for f in hdr:
    at[f['n']] = f['l']
  for name in list(want) + list(rel) + same + ['diff']:
    for dc, (dlo, dhi) in {'<': (-BIG, -1), '=': (0, 0), '>': (1, BIG)}.items():
      for nlo, nhi in ((-BIG, -1), (0, 0), (1, BIG)):
        it = I(F)
        st = absint.State()
        st.iv = {'q': (0, BIG), 'd': (dlo, dhi), 'n': (nlo, nhi)}
        st.heap[('arr', '$')] = absint.Const('arr')
        pv = Aff({'q': 1, 'd': 1})
        it.known = [pv, Aff({'q': 1}), pv.add(n), pv.add(n, -1), Aff({'q': 1, 'n': 1})]
        sub = lambda a: Aff((), a.k).add(pv.mul(a.c.get('p', 0))).add(Aff({s: v for s, v in a.c.items() if s != 'p'}))
        f = wit[name]
        outs = it.call_fn(f, None, [Ptr(('arr',)), pv, Aff({'q': 1}), n], st)
        c.need(outs, 'no outcome for ' + name)
        used = sorted(x for x in it.inlined if 'iterator.h' in x)
        site = used[-1].split(' ')[0] if used else 'arolla/util/iterator.h:1'
        sites = ', '.join(used)
        for v, s in outs:
          what = 'p %s q, n in [%s,%s]' % (dc, nlo, nhi)
          if name in want:
            loc = v.loc if isinstance(v, (Ref, Ptr)) else None
            good = loc is not None and loc[0] == 'elem' and loc[1] == ('arr',) and loc[2] == sub(want[name])
            exp = 'element at %r' % want[name]
          elif name == 'diff':
            good, exp = v == Aff({'d': 1}), 'p - q'
          elif name in rel:
            good, exp = v is (dc in rel[name]), str(dc in rel[name])
          else:
            good, exp = v is True, 'true'
          if good:
            c.ok('%s [%s] -> %r' % (name, what, v))
          else:
            c.bad(site, 'iterator expression "%s" with %s yields %r, expected %s (through %s)' % (name, what, v, exp, sites),
                  key=name)
        c.count('abstract_evaluations')
  c.count('operators_inlined', len(hdr))


report.main('U03', RULE, run)
