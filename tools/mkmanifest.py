#!/usr/bin/env python3
"""Regenerates MANIFEST.json from properties.jsonl and the rule modules present."""
import ast, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {
    'C90': "depends on the directory contents at call time and on glob/re run-time matching; no static argument over the source bounds it (the parsing half is C22)",
    'C91': "a relation between two runs on permuted declarations; the resolution queue order reaches user-defined methods and formats through getattr, so no sound static argument in reach decides confluence",
    'C92': "quantifies over the pickle behaviour of arbitrary user values and types (run-time dispatch of __reduce__/__getstate__ outside the repository); the library's own half (state kept, marker restored, re-announced) is decided in C14 and C18",
}
checks, na = [], []
for l in open(V + '/properties.jsonl'):
    d = json.loads(l)
    i = d['id']
    p = V + '/fpsa/rules/%s.py' % i.lower()
    if os.path.exists(p):
        mod = ast.parse(open(p).read())
        ns = {}
        for n in mod.body:
            if isinstance(n, ast.Assign) and getattr(n.targets[0], 'id', '') in ('TECHNIQUE', 'NOTE'):
                ns[n.targets[0].id] = ast.literal_eval(n.value)
        checks.append(dict(property=i, quick_cmd='python3 check.py %s' % i, thorough_cmd='python3 check.py %s --tier=thorough' % i,
                           evidence_file='evidence/%s.json' % i,
                           technique=ns.get('TECHNIQUE', 'static analysis: path-sensitive abstract interpretation of the source, decision tables compared with the required ones'),
                           level='other',
                           level_note=ns.get('NOTE', 'sound for the decided obligations up to the faithfulness of the interpreter model; constructs it cannot decide are listed as undecided in the evidence (none on the current tree)')))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'no static rule built yet for this property')))
json.dump(dict(version=1, setup_cmd='true', checks=checks, not_applicable=na), open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
