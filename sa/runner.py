"""Check runner: obligations, parallel analysis tasks, evidence, known findings."""
import json
import multiprocessing as mp
import os
import re
import signal
import sys
import time
import traceback

sys.setrecursionlimit(100000)

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ROOT = os.environ.get('VERIF_REPO', '/repo')
EVID = os.environ.get('VERIF_EVID', os.path.join(VERIF, 'evidence'))
TIMEOUT = int(os.environ.get('VERIF_TASK_TIMEOUT', '240'))


class TimeUp(Exception):
    pass


def ob(rule, construct, status, config='', how='', detail='', site='', wit=None):
    """one obligation: status held | violated | undecided"""
    return dict(rule=rule, construct=construct, status=status, config=config, how=how, detail=str(detail)[:600], site=str(site))


def from_verdict(v, rule, construct, config='', site=''):
    st = 'held' if v.eq is True else 'violated' if v.eq is False else 'undecided'
    return ob(rule, construct, st, config, v.how, v.detail, site)


def _run(task):
    label, fn, args, tmo = task
    t = time.time()

    def onalarm(*a):
        raise TimeUp()
    signal.signal(signal.SIGALRM, onalarm)
    signal.alarm(tmo)
    cov = {}
    try:
        r = fn(*args)
        if isinstance(r, tuple):
            r, cov = r
        out = (label, r, None, cov)
    except TimeUp:
        out = (label, [], 'analysis time limit', cov)
    except Exception as e:                                      # noqa: BLE001
        from .interp import Raised, Unsupported, AnalysisBroken
        tb = traceback.extract_tb(e.__traceback__)
        loc = ' < '.join('%s:%s' % (x.name, x.lineno) for x in tb[-3:])
        if isinstance(e, Raised):
            why = 'analysed program raises %s: %s' % (e.exc, str(e.msg)[:200])
            out = (label, [], ('raised', why), cov)
        elif isinstance(e, Unsupported):
            out = (label, [], 'unsupported construct: %s (%s)' % (str(e)[:200], loc), cov)
        elif isinstance(e, AnalysisBroken):
            out = (label, [], 'anchor: %s' % str(e)[:200], cov)
        else:
            out = (label, [], 'analyser: %s: %s (%s)' % (type(e).__name__, str(e)[:200], loc), cov)
    except RecursionError:
        out = (label, [], 'recursion limit', cov)
    finally:
        signal.alarm(0)
    return out + (time.time() - t,)


_TASKS = []


def _run_i(i):
    return _run(_TASKS[i])


def run_tasks(tasks, jobs=None):
    """tasks: list of (label, fn, args[, timeout])"""
    global _TASKS
    _TASKS = [(t[0], t[1], t[2], t[3] if len(t) > 3 else TIMEOUT) for t in tasks]
    jobs = jobs or int(os.environ.get('VERIF_JOBS', '8'))
    if jobs == 1 or len(_TASKS) == 1:
        return [_run(t) for t in _TASKS]
    ctx = mp.get_context('fork')
    with ctx.Pool(min(jobs, len(_TASKS)), maxtasksperchild=12) as pool:
        return pool.map(_run_i, range(len(_TASKS)), chunksize=1)


def load_known():
    """known_findings.txt: lines  'finding: property=<id> rule=<rule> construct=<construct> [config~<substring>] :: text'"""
    out = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if not os.path.exists(p):
        return out
    for line in open(p):
        line = line.strip()
        if not line.startswith('finding:'):
            continue
        head, _, text = line[len('finding:'):].partition('::')
        d = {'text': text.strip()}
        for w in head.split():
            k, _, v = w.partition('=')
            d[k] = v
        out.append(d)
    return out


def matches(k, pid, o):
    if k.get('property') != pid or k.get('rule') != o['rule'] or k.get('construct') != o['construct']:
        return False
    c = k.get('config')
    return c is None or all(w in o['config'].replace(' ', '_') for w in c.split(','))


def run_check(pid, spec, tier, seed):
    """spec: dict(tasks=fn(tier)->list, explanation=str, assumptions=[...])"""
    t0 = time.time()
    tasks = spec['tasks'](tier)
    only = os.environ.get('VERIF_ONLY')     # development: labels of the tasks to run
    if only:
        tasks = [t for t in tasks if re.search(only, t[0])] or tasks[:1]
    res = run_tasks(tasks)
    obs = []
    analysed = set()
    npaths = 0
    notes = {}
    for label, r, err, cov, dt in res:
        if err is not None:
            if isinstance(err, tuple):
                # the analysed program raises in a supported configuration
                obs.append(ob('raises', label.split(' ')[0], 'violated', label, 'abstract execution', err[1]))
            else:
                obs.append(ob('analysis', label.split(' ')[0], 'undecided', label, '', err))
        if cov.get('shape') and not any(o['rule'] == 'shape' for o in r):
            site, text = cov['shape'][0]
            r = r + [ob('shape', site.split(':')[-2], 'violated', label, 'abstract execution', text, site)]
        obs += r
        analysed |= set(cov.get('functions', ()))
        npaths += cov.get('events', 0)
        for k, v in cov.get('undecided', {}).items():
            notes[k] = notes.get(k, 0) + v
    known = load_known()
    bad, kn, seen = [], [], set()
    for o in obs:
        if o['status'] != 'violated':
            continue
        hit = next((k for k in known if matches(k, pid, o)), None)
        key = (o['rule'], o['construct'])
        if hit is not None:
            if (id(hit)) not in seen:
                seen.add(id(hit))
                kn.append((hit, o))
            continue
        if key not in seen:
            seen.add(key)
            bad.append(o)
    decided = [o for o in obs if o['status'] in ('held', 'violated')]
    und = [o for o in obs if o['status'] == 'undecided']
    by = {}
    for o in obs:
        by.setdefault(o['rule'], {'held': 0, 'violated': 0, 'undecided': 0})[o['status']] += 1
    hows = {}
    for o in decided:
        hows[o['how']] = hows.get(o['how'], 0) + 1
    ev = dict(
        property=pid, tier=tier, seed=seed, level='other',
        coverage=dict(
            explanation=spec['explanation'],
            obligations=len(obs), discharged=sum(o['status'] == 'held' for o in obs),
            undecided=len(und), rules=by, decided_by=hows,
            configurations=sorted({o['config'] for o in obs if o['config']})[:400],
            constructs=sorted({o['construct'] for o in obs})[:400],
            functions_analysed=sorted(analysed)[:400],
            program_points_observed=npaths,
            samples=[{k: o[k] for k in ('rule', 'construct', 'config', 'status', 'how', 'detail', 'site') if o[k]} for o in (bad + decided[:3] + decided[-3:])][:12],
            undecided_samples=[{k: o[k] for k in ('rule', 'construct', 'config', 'detail') if o[k]} for o in und][:40],
            abstraction_notes=dict(sorted(notes.items(), key=lambda kv: -kv[1])[:30]),
        ),
        assumptions=spec.get('assumptions', []),
        wall_s=round(time.time() - t0, 2), violations=len(bad))
    os.makedirs(EVID, exist_ok=True)
    path = os.path.join(EVID, pid + '.json')
    with open(path + '.tmp', 'w') as f:
        json.dump(ev, f, indent=1, sort_keys=True, default=str)
    os.replace(path + '.tmp', path)
    print('%s tier=%s obligations=%d held=%d undecided=%d violated=%d (%.1fs)' % (
        pid, tier, len(obs), ev['coverage']['discharged'], len(und), len([o for o in obs if o['status'] == 'violated']), ev['wall_s']))
    for hit, o in kn:
        print('KNOWN-FINDING: property=%s %s' % (pid, hit['text']))
    if bad:
        rp = os.path.join(EVID, pid + '.violation.txt')
        with open(rp, 'w') as f:
            for o in bad:
                f.write(json.dumps(o, indent=1) + '\n')
        for o in bad:
            print('  %s | %s | %s | %s | %s | %s' % (o['rule'], o['construct'], o['config'], o['how'], o['detail'], o['site']))
        print('VIOLATION property=%s replay=%s' % (pid, os.path.relpath(rp, VERIF)))
        return 1
    if not decided:
        print('no obligation could be decided (anchors gone?)')
        for o in und[:10]:
            print('  ', o['rule'], o['construct'], o['config'], o['detail'])
        return 2
    return 0
