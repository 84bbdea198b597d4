#!/usr/bin/env python3
"""seedtool.py make SPEC.py...   build /verif/seeded/<id> from a spec (ID, PROP, FILE(S)/EDITS, NEEDS, BREAKS, DEMO)
   seedtool.py test ID...        in a scratch copy: demo clean=0, patch applies, stable tests pass, demo patched!=0
   seedtool.py check ID... [--all]  run the check of the property (or all checks) against the patched scratch copy"""
import json, os, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SD = os.path.join(V, 'seeded')
ENV = '. /opt/vp/env.sh >/dev/null 2>&1; '


def sh(cmd, cwd, env=None, timeout=900):
    e = dict(os.environ)
    e.update(env or {})
    r = subprocess.run(['bash', '-c', cmd], cwd=cwd, env=e, capture_output=True, text=True, timeout=timeout)
    return r.returncode, r.stdout + r.stderr


def copy(i, tag):
    d = '/tmp/sc_%s_%s' % (i, tag)
    shutil.rmtree(d, ignore_errors=True)
    sh('git -C /repo worktree prune; cp -a /repo %s' % d, '/')
    return d


def make(path):
    ns = {}
    exec(open(path).read(), ns)
    i = ns['ID']
    out = os.path.join(SD, i)
    os.makedirs(out, exist_ok=True)
    d = copy(i, 'mk')
    for f, old, new in ns['EDITS']:
        p = os.path.join(d, f)
        s = open(p).read()
        if s.count(old) != 1:
            print(i, 'edit does not match uniquely', f, s.count(old))
            shutil.rmtree(d)
            return
        open(p, 'w').write(s.replace(old, new))
    rc, diff = sh('git diff', d)
    open(os.path.join(out, 'patch.diff'), 'w').write(diff)
    json.dump({'property': ns['PROP'], 'needs': ns['NEEDS'], 'what_it_breaks': ns['BREAKS']}, open(os.path.join(out, 'meta.json'), 'w'), indent=1)
    open(os.path.join(out, 'demo.py'), 'w').write("import os, sys\nsys.path.insert(0, os.getcwd())\n" + ns['DEMO'])
    open(os.path.join(out, 'demo.sh'), 'w').write('#!/bin/bash\n. /opt/vp/env.sh\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    os.chmod(os.path.join(out, 'demo.sh'), 0o755)
    shutil.rmtree(d)


def test(i):
    d = copy(i, 'te')
    s = os.path.join(SD, i)
    msgs = []
    rc, o = sh('bash %s/demo.sh' % s, d)
    if rc:
        msgs.append('demo fails on clean tree: ' + o[-300:])
    rc, o = sh('git apply %s/patch.diff' % s, d)
    if rc:
        msgs.append('patch does not apply ' + o[-200:])
    rc, o = sh(ENV + 'PYTHONPATH=%s:/opt/vp/plugins /opt/venv/bin/python -m pytest tests -q -p no:cacheprovider -p cbx_fixed_seed -n 2 --timeout=60 2>&1 | tail -8' % d, d)
    line = o.strip().splitlines()[-1] if o.strip() else ''
    if 'failed' in line or 'error' in line or 'passed' not in line:
        msgs.append('tests: ' + o[-600:])
    rc, o = sh('bash %s/demo.sh' % s, d)
    if rc == 0:
        msgs.append('demo passes with the patch')
    shutil.rmtree(d)
    return i, msgs, line


def check(i, props=None):
    d = copy(i, 'ck')
    s = os.path.join(SD, i)
    rc, o = sh('git apply %s/patch.diff' % s, d)
    res = []
    pr = props or [json.load(open(os.path.join(s, 'meta.json')))['property']]
    for p in pr:
        rc, o = sh('./check %s quick' % p, V, {'VERIF_REPO': d, 'VERIF_EVID': d + '/.evid', 'VERIF_JOBS': os.environ.get('VERIF_JOBS', '4')}, 3000)
        v = [l for l in o.splitlines() if l.startswith('  ')]
        res.append((p, rc, 'VIOLATION property=%s' % p in o, (v or [o[-200:]])[0][:220]))
    shutil.rmtree(d)
    return i, res


if __name__ == '__main__':
    cmd, a = sys.argv[1], sys.argv[2:]
    ids = [x for x in a if not x.startswith('--')]
    if cmd == 'make':
        for x in ids:
            make(x)
    elif not ids:
        ids = sorted(os.listdir(SD))
    if cmd == 'test':
        with ThreadPoolExecutor(4) as ex:
            for i, m, line in ex.map(test, ids):
                print(i, 'OK' if not m else 'BAD', line, *m)
    if cmd == 'check':
        props = None
        if '--all' in a:
            props = [c['property'] for c in json.load(open(V + '/MANIFEST.json'))['checks']]
        with ThreadPoolExecutor(2) as ex:
            for i, res in ex.map(lambda x: check(x, props), ids):
                try:
                    cb = json.load(open(V + '/tools/caught.json'))
                except OSError:
                    cb = {}
                old = [x for x in cb.get(i, []) if x not in [p for p, *_ in res]]
                cb[i] = sorted(old + [p for p, rc, v, t in res if rc == 1 and v])
                json.dump(cb, open(V + '/tools/caught.json', 'w'), indent=1, sort_keys=True)
                for p, rc, v, t in res:
                    if len(res) == 1 or rc:
                        print(i, p, 'CAUGHT' if rc == 1 and v else 'missed rc=%s' % rc, t)
