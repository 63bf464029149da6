#!/usr/bin/env python3
"""DESIGN.md = tools/design_head.md + per-property section (from the check modules) + known findings + planted bugs."""
import ast, json, os, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = [open(os.path.join(V, 'tools', 'design_head.md')).read().rstrip(), '', '## Per property', '']
REASON = json.load(open(os.path.join(V, 'tools', 'not_applicable.json')))
for line in open(os.path.join(V, 'properties.jsonl')):
    d = json.loads(line)
    p = d['id']
    fn = os.path.join(V, 'checks', p.lower() + '.py')
    out.append('### %s %s' % (p, d['title']))
    if not os.path.exists(fn):
        out += ['Not claimed: ' + REASON.get(p, 'no check built yet'), '']
        continue
    tree = ast.parse(open(fn).read())
    v = {}
    for node in tree.body:
        if isinstance(node, ast.Assign):
            for t in node.targets:
                try:
                    if isinstance(t, ast.Tuple):
                        v.update(zip([e.id for e in t.elts], ast.literal_eval(node.value)))
                    else:
                        v[t.id] = ast.literal_eval(node.value)
                except Exception:
                    pass
    out.append('- deciding method: ' + v['TECHNIQUE'])
    out.append('- bounds: ' + v['NOTE'])
    out.append('- what is counted: ' + v['RULE'])
    fs = [n for n in tree.body if isinstance(n, ast.FunctionDef) and ast.get_docstring(n)]
    for f in fs:
        if f.args.args and f.args.args[0].arg == 'case':
            out.append('- workload `%s`: %s' % (f.name, ' '.join(ast.get_docstring(f).split())))
    out.append('')
out += ['## Findings on the pinned tree', '', 'Every line is one entry of known_findings.txt ("fixed" = repaired by the named commit in /repo, "finding" = recorded).', '']
for l in open(os.path.join(V, 'known_findings.txt')):
    if l.startswith(('fixed', 'finding')):
        out.append('- ' + l.strip())
out += ['', '## Planted bugs and the checks that catch them', '']
for m in sorted(glob.glob(os.path.join(V, 'seeded', '*', 'meta.json'))):
    d = json.load(open(m))
    out.append('- `%s` (%s): %s; needs: %s. %s' % (os.path.basename(os.path.dirname(m)), d['property'], d['what_it_breaks'], d['needs'], d.get('caught', 'Caught by ./check %s quick.' % d['property'])))
open(os.path.join(V, 'DESIGN.md'), 'w').write('\n'.join(out) + '\n')
