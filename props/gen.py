#!/usr/bin/env python3
"""Generates properties.jsonl and MANIFEST.json from props/*.txt-like tables.

One record per property in the P tables (props/p_*.py): P(id, title, statement,
over, quantifier, why, files, mechanism, technique=..., note=...) for claimed
properties and reason=... for the ones static analysis cannot decide here.
"""
import glob
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
ALL = []


def P(id, title, statement, over, text, why, files, mech, technique=None, note=None, reason=None, observe=None):
  assert len(title) <= 80, title
  assert (technique and note) or reason, id
  ALL.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  technique=technique, note=note, reason=reason, observe=observe or []))


def design():
  env = {}
  exec(compile(open(os.path.join(HERE, 'design.py')).read(), 'design.py', 'exec'), env)
  seeded = {}
  for f in sorted(glob.glob(os.path.join(VERIF, 'seeded', '*', 'meta.json'))):
    m = json.load(open(f))
    seeded.setdefault(m['property'], []).append((os.path.basename(os.path.dirname(f)), m))
  out = [open(os.path.join(HERE, 'design_head.md')).read()]
  for p in sorted(ALL, key=lambda p: p['id']):
    if p['reason']:
      continue
    out.append('\n### %s %s\n\n%s\n\n' % (p['id'], p['title'], p['statement']))
    out.append('*Technique:* %s. %s\n\n' % (p['technique'], p['note']))
    out.append('*How:* %s\n\n' % env['D'][p['id']])
    out.append('*Beyond the tests:* %s\n' % p['why'])
    if p['id'] in seeded:
      out.append('\n*Planted bugs caught:* ' + '; '.join('`%s` (%s)' % (i, m['what_it_breaks']) for i, m in seeded[p['id']]) + '\n')
  na = [p for p in sorted(ALL, key=lambda p: p['id']) if p['reason']]
  if na:
    out.append('\n## Not applicable\n\n')
    for p in na:
      out.append('- **%s %s**: %s\n' % (p['id'], p['title'], p['reason']))
  out.append(open(os.path.join(HERE, 'design_tail.md')).read())
  open(os.path.join(VERIF, 'DESIGN.md'), 'w').write(''.join(out))


def main():
  for f in sorted(glob.glob(os.path.join(HERE, 'p_*.py'))):
    exec(compile(open(f).read(), f, 'exec'), {'P': P})
  ids = [p['id'] for p in ALL]
  assert len(set(ids)) == len(ids)
  with open(os.path.join(VERIF, 'properties.jsonl'), 'w') as out:
    for p in sorted(ALL, key=lambda p: p['id']):
      out.write(json.dumps({
          'id': p['id'], 'title': p['title'], 'statement': p['statement'],
          'quantifier': {'over': p['over'], 'text': p['text']},
          'why_tests_cant': p['why'],
          'anchors': {'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mech']], 'observe_at': p['observe']},
      }) + '\n')
  checks, na = [], []
  for p in sorted(ALL, key=lambda p: p['id']):
    if p['reason']:
      na.append({'property': p['id'], 'reason': p['reason']})
      continue
    assert os.path.exists(os.path.join(VERIF, 'checks', p['id'] + '.py')), p['id']
    checks.append({'property': p['id'], 'quick_cmd': 'python3 checks/%s.py' % p['id'], 'thorough_cmd': 'VERIF_TIER=thorough python3 checks/%s.py' % p['id'],
                   'evidence_file': 'evidence/%s.json' % p['id'], 'technique': p['technique'], 'level': 'other', 'level_note': p['note']})
  m = {'version': 1, 'setup_cmd': 'python3 lib/setup.py', 'checks': checks, 'not_applicable': na,
       'notes': 'Every check is static: it parses /repo with a libTooling extractor (tool/arx.cc) or the Python ast module and decides the '
                'property on the resolved program; nothing of /repo is executed. Generated by props/gen.py.'}
  json.dump(m, open(os.path.join(VERIF, 'MANIFEST.json'), 'w'), indent=1)
  design()
  print(len(checks), 'claimed', len(na), 'not applicable')


main()
