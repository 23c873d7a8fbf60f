#!/usr/bin/env python3
"""writes MANIFEST.json from the contract modules present"""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
NOTES = json.load(open(os.path.join(HERE, 'tools', 'notes.json')))
checks, na = [], []
for p in props:
    i = p['id']
    n = NOTES.get(i, {})
    if os.path.exists(os.path.join(HERE, 'contracts', i.lower() + '.py')) and not n.get('na'):
        checks.append(dict(property=i, quick_cmd=f'python3 check.py {i} --tier quick', thorough_cmd=f'python3 check.py {i} --tier thorough',
                           evidence_file=f'evidence/{i}.json',
                           technique='contract-based deductive verification: pre/postconditions and loop invariants on the functions '
                                     'extracted from /repo on every run, every obligation discharged by z3/cvc5',
                           level=n.get('level', 'proof'), level_note=n.get('note', '')))
    else:
        na.append(dict(property=i, reason=n.get('na', 'contracts for this property are not built yet')))
m = dict(version=1, setup_cmd='python3 -c "pass"', checks=checks, not_applicable=na,
         hooks=dict(guard='', enable='', source_commits=[]),
         notes='See DESIGN.md. No hooks are needed in /repo: functions are extracted mechanically from the working tree on every run.')
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks;', len(na), 'not claimed')
