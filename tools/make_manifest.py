#!/usr/bin/env python3
"""Writes MANIFEST.json from the check modules (TECHNIQUE, LEVEL, NOTE of each) and the list of properties."""
import ast
import json
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
checks, na = [], []
REASON = json.load(open(os.path.join(V, 'tools', 'not_applicable.json')))
for line in open(os.path.join(V, 'properties.jsonl')):
    p = json.loads(line)['id']
    fn = os.path.join(V, 'checks', p.lower() + '.py')
    if not os.path.exists(fn):
        na.append(dict(property=p, reason=REASON.get(p, 'no check built yet')))
        continue
    d = {}
    for node in ast.parse(open(fn).read()).body:
        if isinstance(node, ast.Assign):
            for t in node.targets:
                try:
                    if isinstance(t, ast.Tuple):
                        d.update(zip([e.id for e in t.elts], ast.literal_eval(node.value)))
                    else:
                        d[t.id] = ast.literal_eval(node.value)
                except Exception:
                    pass
    checks.append(dict(property=p, quick_cmd='./check %s quick' % p, thorough_cmd='./check %s thorough' % p,
                       evidence_file='evidence/%s.json' % p, technique=d['TECHNIQUE'], level=d['LEVEL'], level_note=d['NOTE']))
m = dict(version=1, setup_cmd='/opt/venv/bin/python -m vlib.native', checks=checks, not_applicable=na,
         notes='No hooks in /repo: all instrumentation is attached from /verif at run time, so there is no guard. Repairs are the "fix:" commits '
               'listed in known_findings.txt.')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not claimed')
