"""Writes MANIFEST.json from the table below (run after claiming a property)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CLAIM = json.load(open(os.path.join(HERE, 'tools', 'claims.json')))
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    c = CLAIM.get(p['id'])
    if c and c.get('level'):
        checks.append(dict(property=p['id'], quick_cmd='python3-vt check.py %s' % p['id'], thorough_cmd='VERIF_TIER=thorough python3-vt check.py %s' % p['id'],
                           technique='contract-based deductive verification of the real code (pyvc: contracts, loop rules, SMT/ring back ends)' + c.get('technique', ''),
                           level=c['level'], level_note=c['note']))
    else:
        na.append(dict(property=p['id'], reason=(c or {}).get('reason', 'contracts for this property are not finished')))
m = dict(version=1, setup_cmd='python3-vt -c "import pyvc.runner, z3, cvc5" && mkdir -p evidence', checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
