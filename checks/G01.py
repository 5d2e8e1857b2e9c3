"""Generated sources do not depend on set order, hashes, time or environment."""
import os
import re
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import pyan
import pytaint
import report

RULE = ('order-taint dataflow over the generators\' syntax trees: every value that is a set, or whose order or content was derived from '
        'iterating one (or from id/hash/time/environment), must pass through an injective sort before it reaches text, a template '
        'argument, a written file or the list a generator function returns; evaluated per function and argument kinds to a fixpoint')


def template_rule(c, an):
  n = 0
  # templates next to generator classes are rendered with their objects; the
  # others only with JSON contexts, which have no unordered collections
  dirs = {os.path.dirname(m.rel) for m in an.prog.mods.values() if m.classes}
  for rel, text in pyan.templates():
    if os.path.dirname(rel) not in dirs:
      continue
    exprs = [(m.start(), m.group(1)) for m in re.finditer(r'{%-?\s*for\s+.+?\s+in\s+(.+?)\s*-?%}', text, re.S)]
    exprs += [(m.start(), m.group(1)) for m in re.finditer(r'{{-?\s*(.+?\|\s*join\b.*?)\s*-?}}', text, re.S)]
    for pos, e in exprs:
      n += 1
      parts = [x.strip() for x in re.split(r'(?<!\|)\|(?!\|)', e)]
      head = re.sub(r'\(.*\)$', '', parts[0]).strip()
      name = re.split(r'\.', head)[-1]
      if any(f.split('(')[0].strip() == 'sort' for f in parts[1:]) or '.' not in head:
        c.ok('%s: %s' % (rel, e[:60]))
        continue
      kinds = an.attr_kind(None, name)
      for cls, m in an.prop_index.get(name, []) + an.method_index.get(name, []):
        kinds |= an.call_fn(pytaint.Fn(cls.mod, m, cls), {})
      if kinds & (pytaint.S | pytaint.O):
        c.bad('%s:%d' % (rel, text.count('\n', 0, pos) + 1), 'the template iterates an unordered collection without sorting it: ' + e[:80])
      else:
        c.ok('%s: %s' % (rel, e[:60]))
  c.count('template loops', n)


def run(c):
  prog = pyan.Program()
  c.need(len(prog.mods) >= 12, 'generator modules under arolla/codegen')
  an = pytaint.Analysis(prog)
  an.run()
  for (rel, qual, what), where in sorted(an.viol.items()):
    c.bad(where, '%s: %s' % (qual, what))
  for f in sorted(an.stats['functions']):
    c.ok('%s: %s' % f)
  template_rule(c, an)
  for k, v in an.stats.items():
    c.count(k, len(v))
  c.count('unordered attributes', len([1 for v in an.attrs.values() if v]))
  c.need(an.stats.get('render sinks'), 'template rendering calls')


report.main('G01', RULE, run)
