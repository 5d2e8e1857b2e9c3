"""An error status is never dropped or replaced by success."""
import os
import re
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import facts
import flow
import guard
import report
from tree import CALLS, callee_short, pp, strip, walk, walk_fn

RULE = ('status typestate over every function of the library: no Status/StatusOr result of a call is discarded; a local status is '
        'examined on every path before it is overwritten or goes out of scope; on a path where it is known to hold an error no '
        'successful status is returned; every error branch of a propagation macro uses the error it caught')

EXCEPTIONS = {
    ('arolla::expr::eval_internal::CastingTransformation', '_'):
        'an operator the backend lacks is reported by the later compilation step, as the comment there says',
    ('arolla::expr::eval_internal::CompilePackedSeqMapOperator', 'IgnoreError'): 'the optimisation of the mapper is best effort',
}
SKIP = re.compile(r'(_gen\.cc|/main\.cc)$')


def statements(fn):
  for x in walk_fn(fn):
    k = x['k']
    ks = []
    if k == 'Block':
      ks = x['c']
    elif k == 'If':
      ks = [x.get('then'), x.get('else')]
    elif k in ('For', 'While', 'Do', 'RangeFor'):
      ks = [x.get('body')]
    elif k in ('Case', 'Default', 'Label'):
      ks = [x.get('sub')]
    for s in ks:
      if s:
        yield s


def run(c):
  F = facts.load(facts.ALL)
  c.need(len(F.functions) > 3000, 'functions of the library')
  for f in F.functions:
    if not f.get('body') or SKIP.search(f['file']):
      continue
    c.count('functions')
    for s in statements(f):
      u = s
      while u['k'] == 'Cast' or u['k'] == 'Ctor' and len(u['a']) == 1:
        u = u['e'] if u['k'] == 'Cast' else u['a'][0]
      if u['k'] not in CALLS:
        continue
      c.count('calls in statement position')
      t = guard.norm_type(u.get('t'))
      crt = guard.norm_type(u.get('rt'))
      if guard.Drop.is_status(t) or guard.Drop.is_status(crt):
        if callee_short(u) in ('operator=', 'With') or u.get('op') in ('=', '<<'):
          c.ok()
          continue
        c.bad('%s:%d' % (f['file'], u['l']), '%s discards the status returned by %s' % (f['n'], pp(u)[:80]))
    for n in walk_fn(f):
      if n['k'] in CALLS and callee_short(n) == 'IgnoreError':
        c.count('IgnoreError calls')
        if (f['n'], 'IgnoreError') in EXCEPTIONS:
          c.ok()
        else:
          c.bad('%s:%d' % (f['file'], n['l']), '%s ignores an error explicitly' % f['n'])
    try:
      g = guard.drops(f)
    except flow.Explosion:
      c.undecided('%s:%d' % (f['file'], f['l']), f['n'] + ': too many paths')
      continue
    c.count('status variables', len(g.types))
    bad = 0
    for (l, name), what in sorted(g.viol.items()) + sorted(g.masked.items()):
      if (f['n'], name) in EXCEPTIONS:
        continue
      bad += 1
      what = re.sub(r' at line \d+', '', what)
      c.bad('%s:%d' % (f['file'], l), '%s: %s %s' % (f['n'], 'the error caught by a propagation macro' if name == '_' else name, what))
    for _ in range(len(g.types) - bad):
      c.ok()
  c.need(c.counts.get('status variables', 0) > 500, 'status variables')


report.main('E02', RULE, run)
