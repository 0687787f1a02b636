"""Writes MANIFEST.json from properties.jsonl and specs/."""
import json, os
H = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
props = [json.loads(l) for l in open(os.path.join(H, 'properties.jsonl'))]
NA = {}
notes = os.path.join(H, 'tools', 'notes.json')
N = json.load(open(notes)) if os.path.exists(notes) else {}
BASE = ('Contracts on the real functions; every obligation discharged for all values, array sizes and step counts on the verified '
        'source, for the tree shapes/option combinations enumerated in the spec. Floats are treated as extended reals (no rounding). ')
checks, na = [], []
for p in props:
  i = p['id']
  if not os.path.exists(os.path.join(H, 'specs', i + '.py')):
    na.append(dict(property=i, reason=NA.get(i, 'no contract written yet')))
    continue
  checks.append(dict(property=i, quick_cmd='./check.py %s --tier quick' % i, thorough_cmd='./check.py %s --tier thorough' % i,
                     evidence_file='evidence/%s.json' % i,
                     technique='contract-based deductive verification (VCs generated from the traced real code, discharged by a normaliser, z3 and cvc5)',
                     level='proof', level_note=BASE + N.get(i, '')))
m = dict(version=1, setup_cmd='true', checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'n/a')
