"""DESIGN.md = tools/design/head.md + one section per property (from the rules' docstrings, the last evidence and tools/design/limits) + tools/design/tail.md."""
import json
import os
import re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
D = os.path.join(V, 'tools', 'design')
props = [json.loads(x) for x in open(V + '/properties.jsonl')]
man = json.load(open(V + '/MANIFEST.json'))
claimed = {c['property'] if 'property' in c else c['id']: c for c in man['checks']}
na = {x['property'] if 'property' in x else x['id']: x['reason'] for x in man['not_applicable']}
limits = {}
for x in open(D + '/limits.md').read().split('\n## ')[1:]:
    k, _, t = x.partition('\n')
    limits[k.strip()] = t.strip()
seeds = {}
for s in sorted(os.listdir(V + '/seeded')):
    m = json.load(open('%s/seeded/%s/meta.json' % (V, s)))
    seeds.setdefault(m['property'], []).append((s, m))
caught = dict(x.split(None, 1) for x in open(D + '/caught.txt').read().splitlines() if x.strip() and x[0] != '#')
out = [open(D + '/head.md').read().rstrip(), '', '## Property by property', '']
for p in props:
    i = p['id']
    out += ['### %s — %s' % (i, p['title']), '']
    if i in na:
        out += ['Not applicable: ' + na[i], '']
        continue
    ev = json.load(open('%s/evidence/%s.json' % (V, i)))['coverage']
    doc = open('%s/fpsa/rules/%s.py' % (V, i.lower())).read().split('"""')[1].strip()
    out += [' '.join(doc.split()), '']
    for r, d in sorted(ev['rules'].items()):
        cs = [re.sub(r' \(.*| > .*', '', c) for c in d['constructs']]
        cs = list(dict.fromkeys(cs))
        out.append('* `%s` %s — on %s%s.' % (r, d['rule'], ', '.join('`%s`' % c.split(':')[-1] for c in cs[:6]), ' and %d more' % (len(cs) - 6) if len(cs) > 6 else ''))
    out.append('')
    if i in limits:
        out += ['Bounds and limits: ' + limits[i], '']
    for s, m in seeds.get(i, ()):
        out.append('* planted `%s` (%s): %s.' % (s, m['what_it_breaks'].rstrip('.'), caught.get(s, 'caught by %s' % i)))
    if seeds.get(i):
        out.append('')
out.append(open(D + '/tail.md').read().strip())
open(V + '/DESIGN.md', 'w').write('\n'.join(out) + '\n')
print(len(out), 'lines')
