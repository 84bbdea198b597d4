#!/usr/bin/env python3
"""fills the generated parts of DESIGN.md (property table, planted bugs); evidence of a quick run must exist"""
import json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from sa import registry
times = {}
if len(sys.argv) > 1:
    for l in open(sys.argv[1]):
        m = re.match(r'(C\d+) rc=\d+ (\d+)s', l)
        if m:
            times[m[1]] = m[2]
rows = ['| id | property | what is analysed and compared | quick: obligations held/undecided, s |', '|---|---|---|---|']
for l in open(V + '/properties.jsonl'):
    p = json.loads(l)
    c = registry.CHECKS.get(p['id'])
    if not c:
        rows.append('| %s | %s | not applicable, see section 3 | |' % (p['id'], p['title']))
        continue
    ex = c['explanation'].replace(registry.ENGINE, '').replace('|', '/')
    e = V + '/evidence/%s.json' % p['id']
    n = ''
    if os.path.exists(e):
        cov = json.load(open(e))['coverage']
        n = '%s/%s' % (cov.get('discharged', '?'), cov.get('undecided', '?') if not isinstance(cov.get('undecided'), list) else len(cov['undecided']))
    rows.append('| %s | %s | %s | %s, %s |' % (p['id'], p['title'], ex, n, times.get(p['id'], '?')))
seeds = ['| planted bug | property | needs | caught by |', '|---|---|---|---|']
cb = {}
try:
    cb = json.load(open(V + '/tools/caught.json'))
except OSError:
    pass
for s in sorted(os.listdir(V + '/seeded')):
    m = json.load(open(V + '/seeded/%s/meta.json' % s))
    seeds.append('| %s | %s | %s | %s |' % (s, m['property'], m['needs'].replace('\n', ' '), ' '.join(cb.get(s, [])) or '(not caught)'))
t = open(V + '/DESIGN.md').read()
for tag, body in (('TABLE', rows), ('SEEDS', seeds)):
    b, e = '<!-- %s -->' % tag, '<!-- /%s -->' % tag
    t = re.sub('@@%s@@|%s.*?%s' % (tag, b, e), lambda m: b + '\n' + '\n'.join(body) + '\n' + e, t, flags=re.S)
open(V + '/DESIGN.md', 'w').write(t)
