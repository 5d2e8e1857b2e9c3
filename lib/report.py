"""Evidence files, VIOLATION / KNOWN-FINDING lines and exit codes."""
import json
import os
import re
import sys
import time
import traceback

from facts import AnalysisBroken, VERIF

KNOWN = os.path.join(VERIF, 'known_findings.txt')


class Check:

  def __init__(self, prop, rule, level='other'):
    self.prop = prop
    self.rule = rule
    self.level = level
    self.t0 = time.time()
    self.viol = []
    self.counts = {}
    self.samples = []
    self.notes = []
    self.obl = 0
    self.open = []

  def count(self, name, n=1):
    self.counts[name] = self.counts.get(name, 0) + n

  def ok(self, what=None):
    """One discharged obligation."""
    self.obl += 1
    if what is not None and len(self.samples) < 25:
      self.samples.append(what)

  def bad(self, where, what, key=None):
    """One violated obligation. `key` identifies it across line shifts."""
    self.obl += 1
    self.viol.append((where, what, key or re.sub(r':\d+', '', where) + '|' + what))

  def undecided(self, where, why):
    """An obligation the abstract domain cannot decide: reported, never counted as discharged."""
    self.open.append('%s: %s' % (where, why))

  def need(self, cond, what):
    if not cond:
      raise AnalysisBroken(what)

  def finish(self):
    known = {}
    if os.path.exists(KNOWN):
      for line in open(KNOWN):
        line = line.strip()
        m = re.match(r'known: property=(\S+) key=<(.*?)> (.*)$', line)
        if m and m.group(1) == self.prop:
          known[m.group(2)] = m.group(3)
    new = []
    seen = set()
    for where, what, key in self.viol:
      if key in seen:
        continue
      seen.add(key)
      if key in known:
        print('KNOWN-FINDING: property=%s %s: %s' % (self.prop, where, known[key]))
      else:
        new.append((where, what, key))
    replay = os.path.join(VERIF, 'evidence', self.prop + '.violations.txt')
    os.makedirs(os.path.dirname(replay), exist_ok=True)
    if new:
      with open(replay, 'w') as f:
        for where, what, key in new:
          f.write('%s: %s\n  rule: %s\n  key: %s\n' % (where, what, self.rule, key))
    elif os.path.exists(replay):
      os.unlink(replay)
    tier = os.environ.get('VERIF_TIER', 'quick')
    ev = {
        'property': self.prop,
        'tier': tier if tier in ('quick', 'thorough') else 'quick',
        'seed': int(os.environ.get('VERIF_SEED', '1') or 1),
        'level': self.level,
        'coverage': {
            'explanation': self.rule,
            'obligations': self.obl,
            'discharged': self.obl - len(self.viol),
            'analysed': self.counts,
            'samples': self.samples[:25],
            'notes': self.notes,
            'undecided': self.open,
            'violations': ['%s: %s' % (w, t) for w, t, _ in new],
        },
        'violations': len(new),
        'wall_s': round(time.time() - self.t0, 2),
    }
    with open(os.path.join(VERIF, 'evidence', self.prop + '.json'), 'w') as f:
      json.dump(ev, f, indent=1)
    for where, what, _ in new[:12]:
      print('%s: %s' % (where, what[:600]))
    if new:
      print('VIOLATION property=%s replay=%s' % (self.prop, replay))
      return 1
    for u in self.open[:12]:
      print('UNDECIDED property=%s %s' % (self.prop, u[:300]))
    print('OK property=%s obligations=%d %s' % (self.prop, self.obl, json.dumps(self.counts)))
    return 0


def absint_unsupported():
  import absint
  return absint.Unsupported


def main(prop, rule, body, level='other'):
  """Runs body(check) and exits with the code the interface requires."""
  c = Check(prop, rule, level)
  try:
    try:
      body(c)
    except absint_unsupported() as e:
      c.undecided('abstract interpretation', 'construct outside the domain: %s' % e)
    if c.obl == 0 and not c.open:
      raise AnalysisBroken('no obligations: the rule matched nothing')
    rc = c.finish()
  except AnalysisBroken as e:
    print('ANALYSIS-BROKEN property=%s %s' % (prop, e))
    rc = 3
  except Exception:
    traceback.print_exc()
    print('ANALYSIS-BROKEN property=%s internal error' % prop)
    rc = 3
  sys.stdout.flush()
  sys.exit(rc)
