"""C18 batching: which particles take part in each step."""
from . import terms as T, ri
from .terms import ZERO, ONE, atom, add, sub, mul, div, neg, fresh
from .fx import sym, c
from .runner import ob, from_verdict, ROOT
from .interp import Arr, Num, NONE, Py, Obj, Raised, extent, shape_vars, ExtObj, UNDEF
from .config import Cfg, Dyn, M, N, B, A, R, to_v, fact
from .spec import View, models_for
from . import dynchecks as dc

NM = 'set_batch_idx'


def batch_models(K, n, subset, exact=False):
    out = []
    shapes = {1: ((3, 2), (5, 3), (4, 3), (7, 4)), 2: ((5, 2), (7, 3), (8, 3), (11, 4)), 3: ((7, 2), (7, 2), (10, 3), (11, 3))}[K]
    if exact:                                # the batches of a pass use up the whole permutation
        shapes = {2: ((4, 2), (2, 1), (6, 3), (8, 4)), 3: ((3, 1), (6, 2), (9, 3), (12, 4))}[K]
    for s in range(n):
        nn, bb = shapes[s % len(shapes)]
        if not (nn - K * bb >= 0 and nn - (K + 1) * bb < 0):
            nn, bb = shapes[0]
        nm = ((3, 3, 5, 4) if subset else (3, 1, 5, 2))[s % 4]
        mo = ri.Model(s, dims={'N': nn, 'B': bb, 'M': nm, 'd': 2})
        if subset:
            mo = None
            # keep a model whose activity pattern has active and terminated runs
            for t in range(50):
                q = ri.Model(s * 100 + t, dims={'N': nn, 'B': bb, 'M': nm, 'd': 2, 'A': 1 + t % (nm - 1)})
                k = sum(1 for i in range(nm) if q.arr('ACT', (i,)))
                if 1 <= k < nm:
                    mo = ri.Model(s * 100 + t, dims={'N': nn, 'B': bb, 'M': nm, 'd': 2, 'A': k})
                    break
            if mo is None:
                continue
        out.append(mo)
    if exact and K == 2 and not subset:
        out += [ri.Model(300 + s, dims={'N': 2, 'B': 1, 'M': 1 + s % 2, 'd': 1}) for s in range(10)]
    return out


def evaluated(D, e, xname, mo, subset):
    """{run: [particle, ...]} for an objective call on particles of the array xname (None: not such a call)"""
    sh, t = e.data['shape'], e.data['term']
    if t is None or len(sh) != 3 or not sh[0] and not sh[1]:
        return None
    nM, nN = mo.dim('M'), mo.dim('N')
    key = {}
    for m in range(nM):
        for n in range(nN):
            key[tuple(round(mo.arr(xname, (m, n, k)), 9) for k in range(mo.dim('d')))] = (m, n)
    vs = [q[0] if q else None for q in shape_vars(sh)]
    sz = [int(round(mo.ev(extent(q), {}))) for q in sh]
    out = {}
    rows = [m for m in range(nM) if mo.arr('ACT', (m,))] if subset else list(range(nM))
    for i in range(sz[0]):
        for j in range(sz[1]):
            pt = []
            for k in range(sz[2]):
                env = {v: x for v, x in zip(vs, (i, j, k)) if v is not None}
                pt.append(round(mo.ev(t, env), 9))
            h = key.get(tuple(pt))
            if h is None:
                return None
            out.setdefault(h[0], []).append(h[1])
    return out


def c18_epoch(cls, K, mode, var, active, exact=False, late=False):
    """batches of consecutive steps: sizes, distinct particles, every particle at most once per pass, fresh permutation per run and pass"""
    ba = {'size': Num(B, 'int'), 'partial': mode == 'partial'}
    if var:
        ba['var'] = var
    cfg = dc.mkcfg(dict(cls=dc.BY[cls], batch=mode, active=active))
    D = Dyn(cfg)
    I = D.I
    D.set('it', Num(0, 'int'))
    kb = mul(c(K), B)
    if var:
        # the constructor above used the default variant
        cfg.kw = dict(cfg.kw)
        D = Dyn(cfg.__class__(cfg.cls, kw=dict(cfg.kw, batch_args=to_dict(ba)), batch=mode, active=active, root=ROOT))
        I = D.I
    lab = '%s %s var=%s active=%s, %d batches per pass%s' % (cls, mode, var or 'default', active, K, ', none left over' if exact else '')
    fact(sub(N, kb), '0' if exact else '+')
    fact(sub(N, mul(c(K + 1), B)), '-')
    for j in range(1, K):
        fact(sub(N, mul(c(j), B)), '+')
    fact(sub(add(N, N), mul(c(K + 1), B)), '+')
    subset = active == 'subset'
    if late:
        lab += ', runs stop after the first step'

    def stop():
        T.ARR_PROP['ACT'] = {'ind'}
        D.cfg.active = 'subset'
        D.activate()
    if subset and not late:
        stop()
    steps = 2 * K if var != 'concat' else K + 1
    evs = []
    for s in range(steps):
        xn = 'XB%d' % s
        D.set('x', D.mkarr(xn, D.xshape))
        if late and s == 1:
            stop()
        D.step()
        evs.append((xn, [e for e in D.events if e.kind == 'eval']))
    ms = batch_models(K, 8, subset, exact)
    out = []

    def res(rule, ok, detail='', con=cls + '.' + NM):
        out.append(ob(rule, con, 'undecided' if ok is None else 'held' if ok else 'violated', lab, 'index sets', detail))
    allb = {}
    bad = {}
    seen_ev = 0
    for mo in ms:
        per = []
        for s, (xn, es) in enumerate(evs):
            got = None
            for e in es:
                try:
                    got = evaluated(D, e, xn, mo, subset and not (late and s == 0))
                except ri.Skip:
                    got = None
                if got is not None:
                    break
            per.append(got)
        allb[mo] = per
    if any(p is None for per in allb.values() for p in per):
        res('batch-size', None, 'objective calls on batch positions not identified')
        return out, D.coverage()
    for mo, per in allb.items():
        rows = {m for m in range(mo.dim('M')) if not subset or mo.arr('ACT', (m,))}
        nN, nB = mo.dim('N'), mo.dim('B')
        for s, got in enumerate(per):
            if late and s == 0:
                if set(got) != set(range(mo.dim('M'))):
                    bad.setdefault('active-runs-batched', 'step 1 evaluates runs %s' % sorted(got))
            elif set(got) != rows:
                bad.setdefault('active-runs-batched', 'step %d evaluates runs %s, active are %s' % (s + 1, sorted(got), sorted(rows)))
            for m, l in got.items():
                if len(l) != nB:
                    bad.setdefault('batch-size', 'N=%d size=%d: batch of %d particles in step %d' % (nN, nB, len(l), s + 1))
                if len(set(l)) != len(l) and var != 'concat':
                    bad.setdefault('batch-distinct', 'N=%d size=%d: batch %s in step %d' % (nN, nB, l, s + 1))
        for m in rows:
            if var == 'concat':
                stream = [x for got in per for x in got.get(m, [])]
                for a in range(0, len(stream), nN):
                    ch = stream[a:a + nN]
                    if len(set(ch)) != len(ch):
                        bad.setdefault('once-per-pass', 'N=%d size=%d: particles %s' % (nN, nB, stream))
            else:
                for a in range(0, len(per), K):
                    ch = [x for got in per[a:a + K] for x in got.get(m, [])]
                    if len(set(ch)) != len(ch):
                        bad.setdefault('once-per-pass', 'N=%d size=%d: particles %s in one pass' % (nN, nB, ch))
    for r in ('active-runs-batched', 'batch-size', 'batch-distinct', 'once-per-pass'):
        if r == 'batch-distinct' and var == 'concat':
            continue
        res(r, r not in bad, bad.get(r, ''))
    # runs and passes have permutations of their own: not the same batches in all models
    if not subset:
        same = [s + 1 for s in range(len(evs)) if all(per[s][0] == per[s].get(1, per[s][0]) for per in allb.values())]
        res('own-permutation-per-run', not same, 'all runs use the same batches in step %d' % same[0] if same else '')
    if var != 'concat':
        same = all(per[s].get(m) == per[s + K].get(m) for per in allb.values() for s in range(K) for m in per[s + K])
        # the order within a pass is random for every size
        sizes = {}
        for mo, per in allb.items():
            for a in range(0, len(per), K):
                for m in per[a]:
                    sizes.setdefault((mo.dim('N'), mo.dim('B'), a // K), []).append(tuple(x for got in per[a:a + K] for x in got.get(m, [])))
        fixed = ['N=%d size=%d: particles %s in pass %d of every run' % (n, b, l[0], a + 1) for (n, b, a), l in sorted(sizes.items()) if len(l) >= 12 and n > 1 and len(set(l)) == 1]
        res('random-order', not fixed, fixed[0] if fixed else '')
        res('fresh-permutation-per-pass', not same, 'the second pass repeats the first one' if same else '')
    return out, D.coverage()


def to_dict(d):
    return dict(d)


def c18_moves(cls, mode, active, exhausted=False):
    """partial: exactly the batch moves; full: every particle of an active run moves"""
    D = dc.make(dc.mk(cls, mode, active, exhausted=exhausted))
    V = View(D)
    xt, xp = D.term('x'), D.preterm('x')
    lab = dc.label(dc.mk(cls, mode, active, exhausted=exhausted))
    con = cls + '.x'
    if xt is None:
        return [ob('batch-moves', con, 'undecided', lab)], D.coverage()
    vs = shape_vars(D.xshape)
    moved = lambda mo, env: abs(mo.ev(xt, env) - mo.ev(xp, env)) > 1e-12
    bad, n = '', 0
    ms = [mo for mo in models_for(D, 5) if not hasattr(mo, "factor")]
    if cls == 'MirrorCBO' and not dc.mirror_invariant(D, V, ms):
        return [ob('batch-moves', con, 'undecided', lab)], D.coverage()
    for mo in ms:
        dims = {k: mo.dim(k) for k in 'MNd'}
        for m in range(dims['M']):
            for p in range(dims['N']):
                env = {vs[0][0]: m, vs[1][0]: p, vs[2][0]: 0}
                try:
                    a = mo.ev(V.act(V.m), env)
                    i = mo.ev(V.inb(V.m, V.n), env)
                    mv = moved(mo, env)
                except (ri.Skip, KeyError):
                    continue
                n += 1
                want = bool(a) and (bool(i) or mode != 'partial')
                if want != mv:
                    bad = 'particle %d of run %d %s' % (p, m, 'moves' if mv else 'does not move')
    return [ob('batch-moves', con, 'undecided' if not n else 'violated' if bad else 'held', lab, 'index sets', bad)], D.coverage()


def c18_setup():
    """batch size, defaults and seeds of the batch configuration"""
    out = []
    con = 'init_batch_idx'

    def build(ba, extra=None):
        kw = {'batch_args': ba} if ba is not None else {}
        return Dyn(Cfg('cbx.dynamics.cbo:CBO', kw=kw, root=ROOT))
    # (arguments, expected number of evaluated points per run)
    for lab, ba, facts, ref in (('none', None, [], N), ('empty', {}, [], N), ('size None', {'size': None}, [], N), ('size = N', {'size': Num(N, 'int')}, [], N),
                                ('size > N', {'size': Num(add(N, ONE), 'int')}, [], N), ('size < N', {'size': Num(B, 'int')}, [sub(N, B), sub(B, ONE)], B)):
        D = None
        try:
            from . import config
            D = DynF(Cfg('cbx.dynamics.cbo:CBO', kw={} if ba is None else {'batch_args': ba}, root=ROOT), facts)
        except Raised as e:
            out.append(ob('batch-arguments', con, 'violated', lab, 'abstract execution', str(e)))
            continue
        ms = [ri.Model(s, dims={'N': 5, 'B': 2}) for s in range(2)]
        es = D.call('eval_per_step')
        if isinstance(es, Num):
            out.append(from_verdict(ri.compare(es.p, ref, {}, ms), 'batch-arguments', con, lab + ', evaluations per step'))
        D.step()
        for fd in D.findings:
            out.append(ob('shape', con, 'violated', lab, 'abstract execution', fd[2], '%s:%s' % fd[1]))
        ev = [e for e in D.events if e.kind == 'eval' and len(e.data['shape']) == 3]
        if not ev:
            out.append(ob('batch-arguments', con, 'undecided', lab))
            continue
        got = extent(ev[0].data['shape'][1])
        out.append(from_verdict(ri.compare(got, ref, {}, ms), 'batch-arguments', con, lab))
    # seeds: the permutations come from a generator seeded with batch_args['seed'] (default 42)
    for lab, ba, want in (('seed given', {'size': Num(B, 'int'), 'seed': Num(T.sym('bseed'), 'int')}, T.sym('bseed')), ('seed 0', {'size': Num(B, 'int'), 'seed': 0}, ZERO),
                          ('default seed', {'size': Num(B, 'int')}, None)):
        D = DynF(Cfg('cbx.dynamics.cbo:CBO', kw={'batch_args': ba}, root=ROOT), [sub(N, B), sub(B, ONE)])
        I = D.I
        perms = [e for e in I.events if e.kind == 'rng' and e.data.get('kind_') == 'perm']
        ok, det = None, ''
        if perms:
            ok = True
            for e in perms:
                src = e.data.get('src')
                s = src.data.get('seed') if isinstance(src, ExtObj) else None
                if s is None or s is NONE:
                    ok, det = False, 'permutation drawn from an unseeded generator (%s)' % (src if isinstance(src, str) else src.data.get('src'))
                elif isinstance(s, Num) and want is not None and not T.equal(s.p, want):
                    ok, det = False, 'seed %s' % T.show(s.p)
        out.append(ob('batch-seed', con, 'undecided' if ok is None else 'held' if ok else 'violated', lab, 'effects', det))
    return out, D.coverage()


class DynF(Dyn):
    """dynamic with additional facts about the extents"""

    def __init__(self, cfg, facts):
        self._facts = facts
        super().__init__(cfg)

    def mkarr(self, *a, **k):
        for p in self._facts:
            fact(p, '+')
        return super().mkarr(*a, **k)


def c18_tasks(tier):
    out = [('setup', c18_setup, ())]
    cl = ('CBO', 'PolarCBO', 'AdamCBO') if tier == 'quick' else [x for x in dc.BY if x not in ('CBS',) + dc.MEMORY]
    for cls in cl:
        for K in (1, 2) if tier == 'quick' else (1, 2, 3):
            for mode, var, act in (('partial', None, 'all'), ('partial', None, 'subset'), ('full', None, 'all'), ('partial', 'concat', 'all')) if tier == 'quick' or cls != 'CBO' else \
                    [(a, b, e) for a in ('partial', 'full') for b in (None, 'resample', 'concat') for e in ('all', 'subset')]:
                out.append(('%s %d %s %s %s' % (cls, K, mode, var, act), c18_epoch, (cls, K, mode, var, act)))
                if K > 1 and act == 'subset':
                    out.append(('%s %d %s %s late' % (cls, K, mode, var), c18_epoch, (cls, K, mode, var, act, False, True)))
                if K > 1:
                    out.append(('%s %d %s %s %s exact' % (cls, K, mode, var, act), c18_epoch, (cls, K, mode, var, act, True)))
    for cls in ('CBO', 'CBOMemory', 'PSO', 'AdamCBO', 'MirrorCBO', 'PolarCBO') + (() if tier == 'quick' else ('DriftConstrainedCBO', 'HyperSurfaceCBO')):
        for mode in ('partial', 'full'):
            out.append(('moves %s %s' % (cls, mode), c18_moves, (cls, mode, 'subset')))
            if tier != 'quick':
                out.append(('moves %s %s all' % (cls, mode), c18_moves, (cls, mode, 'all')))
                out.append(('moves %s %s exhausted' % (cls, mode), c18_moves, (cls, mode, 'subset', True)))
    return out
