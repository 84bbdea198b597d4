#!/usr/bin/env python3
"""mutation testing of the checks (development only):
   mutate.py list FILE            number of mutants
   mutate.py run OUT.jsonl FRACTION SEED FILE...   mutants which pass the stable tests are given to the checks of that file"""
import ast, json, os, random, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = '/repo'
DYN = 'C06 C08 C05 C02 C01 C03 C14 C11 C10 C23 C16 C15 C17 C18 C19 C07 C09 C04'.split()
OTHERS = 'MirrorCBO|PolarCBO|AdamCBO|CBOMemory|PSO|CBS|HyperSurfaceCBO|DriftConstrainedCBO|RegCombinationCBO'
BASE = '^(?!.*(%s))' % OTHERS


def checks(f):
    b = os.path.basename(f)
    t = {
        'objectives.py': (['C22', 'C16'], None), 'constraints.py': (['C28', 'C16', 'C12', 'C08', 'C29'], None), 'regularizers.py': (['C29', 'C07', 'C16', 'C12'], None),
        'scheduler.py': (['C20', 'C07', 'C23', 'C16', 'C14'], None), 'noise.py': ('C09 C17 C23 C01 C02 C08 C16'.split(), BASE),
        'correction.py': ('C08 C23 C03 C05 C02 C06 C04'.split(), BASE), 'termination.py': (['C13', 'C04', 'C14', 'C23'], BASE),
        'history.py': (['C15', 'C16', 'C14'], None), 'success.py': (['C24', 'C16'], None), 'resampling.py': (['C27', 'C16'], None),
        'particle_init.py': (['C10', 'C17', 'C16', 'C23'], BASE), 'objective_handling.py': (['C21', 'C03', 'C23', 'C16'], BASE), 'torch_utils.py': (['C26'], None),
        'pdyn.py': ('C06 C08 C05 C02 C01 C03 C14 C10 C23 C16 C15 C17 C18 C19 C07 C09 C04 C13 C21 C26'.split(), BASE),
        'cbo.py': (DYN, BASE), 'cbo_memory.py': (DYN, 'CBOMemory|PSO'), 'pso.py': (DYN, 'PSO'), 'adamcbo.py': (DYN, 'Adam'), 'cbs.py': (DYN, 'CBS'),
        'driftconstrainedcbo.py': (['C12', 'C28'] + DYN, 'DriftC|solve'), 'hypersurfacecbo.py': (['C12'] + DYN, 'HyperS|surf|sdf|plane|sphere|Stief'),
        'mirrorcbo.py': (['C30', 'C12'] + DYN, 'Mirror|mirror'), 'polarcbo.py': (['C31'] + DYN, 'Polar'), 'regcombinationcbo.py': (['C12', 'C29'] + DYN, 'RegComb'),
        'plotting.py': (['C25'], None),
    }
    c, o = t.get(b, (DYN, BASE))
    if b == 'mirrorcbo.py':
        o = None if False else o
    return c, o


NAMES = [('x', 'x_old'), ('M', 'N'), ('best_energy', 'energy'), ('best_particle', 'best_cur_particle'), ('best_cur_energy', 'best_energy'), ('consensus_idx', 'particle_idx'),
         ('zeros', 'ones'), ('argmin', 'argmax'), ('min', 'max'), ('minimum', 'maximum'), ('any', 'all'), ('active_runs_idx', 'all_runs_idx'), ('mean', 'sum'), ('sin', 'cos'),
         ('isnan', 'isinf'), ('zeros_like', 'ones_like'), ('alpha', 'sigma'), ('sigma', 'lamda'), ('lamda', 'dt'), ('normal', 'uniform'), ('floor', 'ceil'), ('num_f_eval', 'it')]
NM = {}
for a, b in NAMES:
    NM.setdefault(a, b)
    NM.setdefault(b, a)
BIN = {ast.Add: '-', ast.Sub: '+', ast.Mult: '/', ast.Div: '*', ast.Pow: '*', ast.FloorDiv: '/', ast.Mod: '//', ast.MatMult: '*'}
CMP = {ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.Eq: '!=', ast.NotEq: '==', ast.Is: 'is not', ast.IsNot: 'is', ast.In: 'not in', ast.NotIn: 'in'}


def mutants(src):
    tree = ast.parse(src)
    lines = src.splitlines(keepends=True)
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l.encode()))
    b = src.encode()

    def pos(n):
        return off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset

    def seg(n):
        s, e = pos(n)
        return b[s:e].decode()
    out = []

    def rep(n, new, kind):
        s, e = pos(n)
        out.append((kind, n.lineno, (b[:s] + new.encode() + b[e:]).decode(), '%s -> %s' % (seg(n)[:70], new[:70])))
    doc = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
            doc.add(n.body[0].value)
    for n in ast.walk(tree):
        if isinstance(n, (ast.Raise, ast.Import, ast.ImportFrom)):
            continue
        if isinstance(n, ast.BinOp) and type(n.op) in BIN and not isinstance(n.left, ast.Constant) or isinstance(n, ast.BinOp) and not isinstance(n.left, ast.Constant):
            if type(n.op) in BIN:
                rep(n, '(%s) %s (%s)' % (seg(n.left), BIN[type(n.op)], seg(n.right)), 'binop')
            rep(n, '(%s)' % seg(n.left), 'left')
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
            rep(n, '%s %s %s' % (seg(n.left), CMP[type(n.ops[0])], seg(n.comparators[0])), 'cmp')
            if isinstance(n.ops[0], (ast.Lt, ast.LtE)):
                rep(n, '%s > %s' % (seg(n.left), seg(n.comparators[0])), 'cmp2')
        if isinstance(n, ast.BoolOp):
            o = ' or ' if isinstance(n.op, ast.And) else ' and '
            rep(n, '(' + o.join('(%s)' % seg(v) for v in n.values) + ')', 'bool')
            rep(n, '(%s)' % seg(n.values[0]), 'bool1')
        if isinstance(n, ast.UnaryOp):
            rep(n, '(%s)' % seg(n.operand), 'unary')
        if isinstance(n, ast.Constant) and n not in doc:
            v = n.value
            if v is True or v is False:
                rep(n, str(not v), 'const')
            elif isinstance(v, int):
                rep(n, str(v + 1), 'const')
                if v > 0:
                    rep(n, str(v - 1), 'const')
            elif isinstance(v, float):
                rep(n, repr(v * 2 if v else 1.0), 'const')
        if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and n.attr in NM:
            rep(n, '%s.%s' % (seg(n.value), NM[n.attr]), 'attr')
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in NM:
            rep(n, NM[n.id], 'name')
        if isinstance(n, ast.Call):
            if isinstance(n.func, ast.Attribute) and n.func.attr in ('copy', 'clone', 'astype', 'squeeze', 'detach'):
                rep(n, '(%s)' % seg(n.func.value), 'dropcall')
            if len(n.args) == 1 and not n.keywords and isinstance(n.func, ast.Attribute) and n.func.attr in ('sqrt', 'abs', 'exp', 'log', 'square', 'sum', 'array', 'copy'):
                rep(n, '(%s)' % seg(n.args[0]), 'dropfn')
            for k in n.keywords:
                if k.arg in ('axis', 'keepdims', 'ord', 'where', 'size'):
                    out.append(('kw', n.lineno, None, None))
                    s, e = pos(k)
                    # remove the keyword with a preceding comma
                    pre = b[:s].decode().rstrip()
                    if pre.endswith(','):
                        pre = pre[:-1]
                    out[-1] = ('kw', n.lineno, pre + b[e:].decode(), 'drop %s=%s' % (k.arg, seg(k.value)))
            if len(n.args) == 2:
                rep(n, '%s(%s, %s%s)' % (seg(n.func), seg(n.args[1]), seg(n.args[0]), ''.join(', ' + (k.arg + '=' if k.arg else '**') + seg(k.value) for k in n.keywords)), 'swap')
        if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Load):
            rep(n, '(%s)' % seg(n.value), 'nosub')
        if isinstance(n, ast.AugAssign):
            o = '-=' if isinstance(n.op, ast.Add) else '+='
            rep(n, '%s %s %s' % (seg(n.target), o, seg(n.value)), 'aug')
            rep(n, '%s = %s' % (seg(n.target), seg(n.value)), 'aug=')
        if isinstance(n, (ast.Assign, ast.AugAssign)) or isinstance(n, ast.Expr) and n.value not in doc:
            rep(n, 'pass', 'del')
        if isinstance(n, ast.If):
            rep(n.test, 'True', 'if')
            rep(n.test, 'False', 'if')
        if isinstance(n, ast.IfExp):
            rep(n, '(%s)' % seg(n.body), 'ifexp')
            rep(n, '(%s)' % seg(n.orelse), 'ifexp')
    seen, res = {src}, []
    for k, l, s, t in out:
        if s in seen:
            continue
        seen.add(s)
        try:
            ast.parse(s)
        except SyntaxError:
            continue
        res.append((k, l, s, t))
    return res


def sh(cmd, cwd, env=None, timeout=1200):
    e = dict(os.environ)
    e.update(env or {})
    try:
        r = subprocess.run(['timeout', '-k', '5', str(timeout), 'bash', '-c', cmd], cwd=cwd, env=e, capture_output=True, text=True)
        return r.returncode, r.stdout + r.stderr
    except Exception as x:
        return -1, str(x)


POOL = []


def one(a):
    f, k, l, src, txt = a
    d = POOL.pop()
    try:
        p = os.path.join(d, f)
        old = open(p).read()
        open(p, 'w').write(src)
        try:
            rc, o = sh('. /opt/vp/env.sh >/dev/null 2>&1; PYTHONPATH=%s:/opt/vp/plugins /opt/venv/bin/python -m pytest tests -q -x -p no:cacheprovider -p cbx_fixed_seed -n 2 --timeout=60 2>&1 | tail -4' % d, d, timeout=120)
            line = o.strip().splitlines()[-1] if o.strip() else ''
            if 'failed' in line or 'error' in line or 'passed' not in line or 'no tests' in line:
                return dict(file=f, line=l, kind=k, text=txt, res='killed by tests')
            cs, only = checks(f)
            t0 = time.time()
            for c in cs:
                env = {'VERIF_REPO': d, 'VERIF_EVID': d + '/.evid', 'VERIF_JOBS': '2'}
                if only:
                    env['VERIF_ONLY'] = only
                rc, o = sh('./check %s quick' % c, V, env)
                if 'VIOLATION property=' in o:
                    v = [x for x in o.splitlines() if x.startswith('  ')]
                    return dict(file=f, line=l, kind=k, text=txt, res='caught', by=c, how=(v or [''])[0][:200], t=round(time.time() - t0))
                if rc not in (0, 1):
                    return dict(file=f, line=l, kind=k, text=txt, res='ERROR', by=c, how=o[-300:])
            t1 = round(time.time() - t0)
            return dict(file=f, line=l, kind=k, text=txt, res='MISSED', t=t1)
        finally:
            open(p, 'w').write(old)
    finally:
        POOL.append(d)


if __name__ == '__main__':
    if sys.argv[1] == 'list':
        for f in sys.argv[2:]:
            m = mutants(open(os.path.join(R, f)).read())
            print(f, len(m))
    else:
        out, frac, seed, files = sys.argv[2], float(sys.argv[3]), int(sys.argv[4]), sys.argv[5:]
        rnd = random.Random(seed)
        done = set()
        if os.path.exists(out):
            for x in open(out):
                x = json.loads(x)
                done.add((x['file'], x['line'], x['kind'], x['text']))
        jobs = []
        for f in files:
            for k, l, s, t in mutants(open(os.path.join(R, f)).read()):
                if rnd.random() < frac and (f, l, k, t) not in done:
                    jobs.append((f, k, l, s, t))
        rnd.shuffle(jobs)
        W = int(os.environ.get('MUT_W', '4'))
        for i in range(W):
            d = '/tmp/mut_%d_%d' % (os.getpid(), i)
            sh('cp -a /repo %s' % d, '/')
            POOL.append(d)
        print(len(jobs), 'mutants', flush=True)
        with ThreadPoolExecutor(W) as ex, open(out, 'a') as g:
            from concurrent.futures import as_completed
            for r in as_completed([ex.submit(one, j) for j in jobs]):
                r = r.result()
                g.write(json.dumps(r) + '\n')
                g.flush()
        for d in POOL:
            shutil.rmtree(d)
