
exec(open(os.path.join(V, 'tools', 'na.py')).read()) if os.path.exists(os.path.join(V, 'tools', 'na.py')) else None
from sa import registry
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for x in P:
        f.write(json.dumps(x['d']) + '\n')
checks, na = [], []
for x in P:
    i = x['d']['id']
    if i in registry.CHECKS:
        c = registry.CHECKS[i]
        checks.append(dict(property=i, quick_cmd='./check %s quick' % i, thorough_cmd='./check %s thorough' % i, evidence_file='evidence/%s.json' % i,
                           technique=c['technique'], level='other', level_note=c['level_note']))
    else:
        na.append(dict(property=i, reason=x['na'] or 'no check claimed'))
assert {x['d']['id'] for x in P} >= set(registry.CHECKS), set(registry.CHECKS) - {x['d']['id'] for x in P}
json.dump(dict(version=1, setup_cmd='python3 -m compileall -q sa && python3 tools/selftest.py', checks=checks, not_applicable=na,
               notes='Static analysis of the current source of /repo with the Python standard library only; see DESIGN.md.'),
          open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(P), 'properties', len(checks), 'checks', len(na), 'not applicable')
