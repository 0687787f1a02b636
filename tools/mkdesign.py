"""Regenerates the table of section 5 of DESIGN.md from properties.jsonl and the last evidence."""
import json
import os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
B, E = '<!-- table -->', '<!-- /table -->'
rows = ['| id | property | functions under contract | contracts (cases) | obligations (quick) |', '|---|---|---|---|---|']
for l in open(H + '/properties.jsonl'):
  p = json.loads(l)
  e = json.load(open('%s/evidence/%s.json' % (H, p['id'])))
  c = e['coverage']
  f = sorted({x['function'].split(':')[-1] for x in c['functions_under_contract']})
  f = ', '.join(f) if len(f) < 9 else ', '.join(f[:8]) + ' and %d more' % (len(f) - 8)
  rows.append('| %s | %s | %s | %s | %d |' % (p['id'], p['title'], f, '; '.join('%s (%d)' % (k['name'], k['cases']) for k in c['contracts']), c['discharged']))
s = open(H + '/DESIGN.md').read()
a, b = s.index(B) + len(B), s.index(E)
open(H + '/DESIGN.md', 'w').write(s[:a] + '\n' + '\n'.join(rows) + '\n' + s[b:])
s = open(H + '/DESIGN.md').read()
B, E = '<!-- seeded -->', '<!-- /seeded -->'
rows = ['| bug | needs | breaks |', '|---|---|---|']
for d in sorted(os.listdir(H + '/seeded')):
  m = json.load(open('%s/seeded/%s/meta.json' % (H, d)))
  rows.append('| %s | %s | %s |' % (d, m['needs'], m['what_it_breaks']))
a, b = s.index(B) + len(B), s.index(E)
open(H + '/DESIGN.md', 'w').write(s[:a] + '\n' + '\n'.join(rows) + '\n' + s[b:])
