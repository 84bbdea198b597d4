"""Development aid (not a check): compares the analyser's models of Python/numpy with numpy itself on small snippets.
usage: /opt/venv/bin/python tools/modeltest/run.py [snippet ...]   (DIMS=3 for concrete extents)"""
import collections
import importlib.util
import itertools
import os
import shutil
import sys
import tempfile
import warnings
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(os.path.dirname(HERE)))
sys.setrecursionlimit(100000)
import numpy as np                                                      # noqa: E402
from sa import terms as T, ri                                            # noqa: E402
from sa.fx import Fx                                                     # noqa: E402
from sa.interp import Num, Arr, shape_vars                               # noqa: E402
warnings.simplefilter('ignore')
tmp = tempfile.mkdtemp()
os.makedirs(tmp + '/cbx')
open(tmp + '/cbx/__init__.py', 'w').close()
shutil.copy(HERE + '/snip.py', tmp + '/cbx/snip.py')
sp = importlib.util.spec_from_file_location('snip', HERE + '/snip.py')
S = importlib.util.module_from_spec(sp)
sp.loader.exec_module(S)
D = (3, 5, 2) if os.environ.get('DIMS') else ('M', 'N', 'd')
cnt = collections.Counter()


def evaluate(fx, r, m):
    if isinstance(r, Num):
        return np.array(m.ev(r.p, {}))
    if not isinstance(r, Arr):
        return 'undecided %r' % (r,)
    rec, t = fx.I.rec(r), fx.I.read(r)
    if t is None:
        return 'undecided'
    ex = [[int(m.ev(e, {})) for e in q] for q in rec.shape]
    vs = [v for q in shape_vars(rec.shape) for v in q]
    pts = itertools.product(*[range(e) for q in ex for e in q])
    return np.array([m.ev(t, dict(zip(vs, p))) for p in pts]).reshape([int(np.prod(q)) if q else 1 for q in ex])


for n in [k for k in vars(S) if k.startswith('s_')]:
    if len(sys.argv) > 1 and n not in sys.argv[1:]:
        continue
    fx = Fx(tmp)
    args = fx.arr('X', list(D)), fx.arr('Y', list(D[:2])), fx.arr('W', [D[1]]), Num(T.sym('a'), 'float')
    T.SYM_POS.add('a')
    try:
        r = fx.call('cbx.snip:' + n, *args)
    except Exception as e:
        cnt['exception'] += 1
        print('%-14s exception %r' % (n, str(e)[:100]))
        continue
    bad = None
    for seed in range(3):
        m = ri.Model(seed)
        Xn = np.array([[[m.arr('X', (i, j, k)) for k in range(2)] for j in range(5)] for i in range(3)])
        Yn = np.array([[m.arr('Y', (i, j)) for j in range(5)] for i in range(3)])
        Wn = np.array([m.arr('W', (i,)) for i in range(5)])
        ref = np.asarray(getattr(S, n)(Xn, Yn, Wn, m.sym('a')), dtype=float)
        try:
            got = evaluate(fx, r, m)
        except ri.Skip as e:
            bad = 'undecided %r' % e
            break
        if isinstance(got, str):
            bad = got
        elif got.shape != ref.shape:
            bad = 'SHAPE %s vs %s' % (got.shape, ref.shape)
        elif not np.allclose(got, ref, atol=1e-7):
            bad = 'VALUE\n%s\n%s' % (got, ref)
        if bad:
            break
    cnt[(bad or 'ok').split()[0]] += 1
    if bad:
        print('%-14s %s' % (n, bad))
print(dict(cnt))
shutil.rmtree(tmp)
