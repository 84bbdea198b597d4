"""C23 options: names, aliases, callables, unknown names, parameter values. C10 initial state. C24 success criteria."""
from . import terms as T, ri
from .terms import ZERO, ONE, atom, add, sub, mul, div, neg, fresh
from .fx import Fx, sym, c, pw, sumv, axis_index
from .runner import ob, from_verdict, ROOT
from .interp import (Arr, Num, Str, NONE, Py, Obj, Raised, extent, mkdim, shape_vars, UNDEF, Tup, Lst, Fun, Cls, ObjRec, AnalysisBroken, Phi)
from .config import Cfg, Dyn, M, N, to_v, reset_terms, opaque_field
from .spec import View, models_for
from . import dynchecks as dc
from .resampchecks import members

DOBS = ('x', 'y', 'v', 'm', 'energy', 'best_energy', 'best_particle', 'num_f_eval')


# ---------------------------------------------------------------- aliases
def state_terms(d):
    D = dc.make(d)
    return D, {k: (D.term(k), D.shape(k)) for k in DOBS if D.has(k) and isinstance(D.get(k), Arr)}


def c23_alias(cls, kw1, kw2, batch='none', active='subset'):
    """two spellings of the same option give the same step"""
    lab = '%s %s = %s' % (cls, dc.show(kw1), dc.show(kw2))
    con = cls + '.' + '/'.join(sorted(set(kw1) | set(kw2)))
    D1, s1 = state_terms(dc.mk(cls, batch, active, **kw1))
    cov = D1.coverage()
    # terms are compared within one value numbering: rebuild the second one without resetting is not possible, so both are evaluated in the same models
    ms = models_for(D1, 4)
    vals1 = sample(s1, ms)
    D2, s2 = state_terms(dc.mk(cls, batch, active, **kw2))
    vals2 = sample(s2, models_for(D2, 4))
    out = []
    for k in sorted(set(vals1) | set(vals2)):
        a, b = vals1.get(k), vals2.get(k)
        if a is None or b is None:
            out.append(ob('same-component', con + ':' + k, 'violated' if (k in s1) != (k in s2) else 'undecided', lab, 'random-interpretation', 'present in one configuration only' if (k in s1) != (k in s2) else ''))
            continue
        bad = next(((x, y) for x, y in zip(a, b) if (x is None) != (y is None) or x is not None and abs(x - y) > 1e-9 * max(1, abs(x), abs(y))), None)
        some = any(x is not None for x in a)
        out.append(ob('same-component', con + ':' + k, 'violated' if bad else 'held' if some else 'undecided', lab, 'random-interpretation', '%s vs %s' % bad if bad else ''))
    return out, cov


def sample(st, ms):
    out = {}
    for k, (t, sh) in st.items():
        if t is None:
            out[k] = None
            continue
        vals = []
        ex = ri.shape_exts(sh)
        order = [v for q in shape_vars(sh) for v in q]
        for mo in ms:
            for j in range(6):
                env = {}
                for i, v in enumerate(order):
                    n = int(round(mo.ev(ex[v], {})))
                    env[v] = int(ri.h01('pt', j, i) * n) if n > 0 else 0
                try:
                    vals.append(mo.ev(t, env))
                except ri.Skip:
                    vals.append(None)
        out[k] = vals
    return out


# ---------------------------------------------------------------- user callables
def c23_noise_callable(cls, batch, active):
    """a noise callable gets the dynamic and its result is the noise of the step"""
    calls = []

    def mkfn(D):
        def f(I, args, kw):
            calls.append(args[0])
            sh = I.shape(I.getattr(args[0], 'drift'))
            return I.arr(sh, ZERO)
        return Py(f, 'user noise')
    d = dc.mk(cls, batch, active, noise=mkfn)
    D = dc.make(d)
    lab = dc.label(d) + ' noise callable'
    con = cls + '.noise'
    out = dc.findings_obs(D, d)
    out.append(ob('callable-used', con, 'held' if calls else 'violated', lab, 'effects'))
    if calls:
        out.append(ob('callable-arguments', con, 'held' if all(a == D.obj for a in calls) else 'violated', lab, 'effects'))
    V = View(D)
    # zero noise: the update is deterministic
    t = D.term('x')
    if t is not None:
        names = {a.args[0] for a in T.walk(T.expand(t)) if a.kind == 'arr' and isinstance(a.args[0], tuple) and a.args[0][0] == 'rng'}
        bad = [n for n in names if n in noise_draws(D)]
        out.append(ob('callable-used', con, 'violated' if bad else 'held', lab, 'normal form', 'the update still contains normal draws' if bad else ''))
    return out, D.coverage()


def noise_draws(D):
    out = set()
    for e in D.I.events:
        if e.kind == 'rng' and str(e.data.get('kind_', '')).startswith('normal'):
            out.add(e.data.get('name'))
    return out


def c23_consensus_callable(cls, batch, active):
    """a user consensus computation is used for the drift"""
    calls = []

    def mkfn(D):
        def f(I, args, kw):
            calls.append(len(args))
            e, x = args[0], args[1]
            sh = I.shape(x)
            r = I.arr((sh[0], ()) + tuple(sh[2:]), sym('cpt'))
            return Tup((r, e))
        return Py(f, 'user consensus')
    d = dc.mk(cls, batch, active, compute_consensus=mkfn)
    D = dc.make(d)
    lab = dc.label(d) + ' compute_consensus callable'
    con = cls + '.compute_consensus'
    out = [ob('callable-used', con, 'held' if calls else 'violated', lab, 'effects')]
    t = D.term('consensus')
    if t is not None:
        out.append(from_verdict(ri.compare(t, sym('cpt'), ri.shape_exts(D.shape('consensus')), models_for(D, 2)), 'callable-used', con, lab))
    return out, D.coverage()


def c23_correction_callable(cls, batch, active):
    calls = []

    def mkfn(D):
        def f(I, args, kw):
            calls.append(args[0])
            return I.arr(I.shape(args[1]), ZERO)
        return Py(f, 'user correction')
    d = dc.mk(cls, batch, active, correction=mkfn)
    D = dc.make(d)
    lab = dc.label(d) + ' correction callable'
    out = [ob('callable-used', cls + '.correction', 'held' if calls else 'violated', lab, 'effects')]
    if calls:
        out.append(ob('callable-arguments', cls + '.correction', 'held' if all(a == D.obj for a in calls) else 'violated', lab, 'effects'))
    return out, D.coverage()


# ---------------------------------------------------------------- rejected options
BAD = [
    ('unknown noise', 'CBO', dict(noise='no such noise'), None),
    ('noise of a wrong type', 'CBO', dict(noise=3), None),
    ('unknown correction', 'CBO', dict(correction='no such correction'), None),
    ('correction of a wrong type', 'CBO', dict(correction=3), None),
    ('unknown kernel', 'PolarCBO', dict(kernel='no such kernel'), None),
    ('unknown mirror map', 'MirrorCBO', dict(mirrormap='no such map'), None),
    ('unknown constraint', 'DriftConstrainedCBO', dict(constraints=[{'name': 'no such constraint'}]), None),
    ('unknown constraint', 'RegCombinationCBO', dict(constraints=[{'name': 'no such constraint'}]), None),
    ('unknown surface', 'HyperSurfaceCBO', dict(sdf={'name': 'no such surface'}), None),
    ('unknown objective dimension', 'CBO', dict(f_dim='4D'), None),
    ('no dimension', 'CBO', dict(x=NONE), None),
    ('unknown criterion', 'CBO', dict(term_criteria=['no such criterion']), None),
    ('batched CBS', 'CBS', dict(batch_args={'size': 1}), None),
]


def near(*names):
    """strings which are close to a known name and not one"""
    out = ['']
    for n in names:
        out += [n[:-1], n[1:], n + 's', n + ' ' + n, n[:3], n[-1]]
    return [n for n in dict.fromkeys(out) if n not in names]


NEAR = [
    ('noise', 'CBO', lambda n: dict(noise=n), near('isotropic', 'anisotropic', 'covariance', 'sampling', 'constant') + ['covariance sampling', 'covariance,sampling']),
    ('correction', 'CBO', lambda n: dict(correction=n), near('no_correction', 'none', 'heavi_side', 'heavi_side_reg')),
    ('kernel', 'PolarCBO', lambda n: dict(kernel=n), near('Gaussian', 'Laplace', 'Constant', 'InverseQuadratic', 'Taz')),
    ('mirror map', 'MirrorCBO', lambda n: dict(mirrormap=n), near('None', 'L2', 'ProjectionBall', 'ProjectionHyperplane')),
    ('objective dimension', 'CBO', lambda n: dict(f_dim=n), near('1D', '2D', '3D')),
    ('criterion', 'CBO', lambda n: dict(term_criteria=[n]), near('energy-tol', 'diff-tol', 'max-eval', 'max-it', 'max-time')[:8]),
]


def raises(f):
    try:
        f()
    except Raised as e:
        return True, str(e.exc)
    return False, ''


def c23_rejected(name, cls, kw, dims):
    def go():
        Dyn(dc.mkcfg(dc.mk(cls, 'none', 'all', **kw)))
    if name == 'batched CBS':
        def go():                                                # noqa: F811
            d = dc.mk(cls, 'partial', 'all')
            Dyn(dc.mkcfg(d))
    ok, why = raises(go)
    return [ob('option-rejected', cls, 'held' if ok else 'violated', name, 'abstract execution', why or 'accepted')], {}


def c23_unknown_keyword(cls):
    ok, why = raises(lambda: Dyn(dc.mkcfg(dc.mk(cls, 'none', 'all', no_such_option=1))))
    return [ob('option-rejected', cls, 'held' if ok else 'violated', 'unknown keyword', 'abstract execution', why or 'silently ignored')], {}


def c23_cbs_multidim():
    ok, why = raises(lambda: Dyn(dc.mkcfg(dc.mk('CBS', 'none', 'all', ddim=2))))
    return [ob('option-rejected', 'CBS', 'held' if ok else 'violated', 'multi dimensional domain', 'abstract execution', why or 'accepted')], {}


def c23_polar_factor():
    def go():
        dc.make(dc.mk('PolarCBO', 'none', 'all', kernel_factor_mode='no such mode'))
    ok, why = raises(go)
    return [ob('option-rejected', 'PolarCBO', 'held' if ok else 'violated', 'unknown kernel factor mode', 'abstract execution', why or 'accepted')], {}


# ---------------------------------------------------------------- parameter values
PARAMS = {
    'CBO': ('dt', 'sigma', 'lamda', 'alpha', 'max_it', 'verbosity', 'correction_eps'),
    'CBOMemory': ('lamda_memory', 'sigma_memory', 'dt', 'sigma', 'lamda'),
    'PSO': ('lamda_memory', 'sigma_memory', 'm', 'gamma', 'dt', 'sigma', 'lamda'),
    'AdamCBO': ('eps', 'dt', 'sigma', 'lamda'),
    'PolarCBO': ('kappa', 'dt', 'sigma', 'lamda'),
    'DriftConstrainedCBO': ('eps', 'eps_indep', 'sigma_indep', 'dt', 'sigma', 'lamda'),
    'RegCombinationCBO': ('eps', 'dt', 'sigma', 'lamda'),
    'HyperSurfaceCBO': ('dt', 'sigma', 'lamda'),
    'MirrorCBO': ('dt', 'sigma', 'lamda'),
    'CBS': ('dt', 'lamda'),
}
# attribute that stores the parameter
ATTR = {}


def c23_value(cls, p, zero):
    """the given value, also zero, is the value the dynamic uses"""
    val = Num(0, 'int') if zero else Num(sym('pv'), 'float')
    if zero and p == 'nu':
        return [], {}
    D = Dyn(dc.mkcfg(dc.mk(cls, 'none', 'all', **{p: (lambda D: val)})))
    con = '%s.%s' % (cls, p)
    lab = 'zero' if zero else 'value'
    want = ZERO if zero else sym('pv')
    if p == 'max_it':
        g = D.call('terminate') if zero else None
        if not zero:
            return [], D.coverage()
        ok = isinstance(g, Num) and g.p is ONE or getattr(g, 'p', None) is ONE
        return [ob('value-honoured', con, 'held' if ok else 'violated', lab, 'abstract execution', '' if ok else 'a run with max_it=0 is not terminated: %r' % (g,))], D.coverage()
    v = D.get(p)
    if isinstance(v, Num):
        st = 'held' if v.p is want or T.equal(v.p, want) else 'violated'
        return [ob('value-honoured', con, st, lab, 'normal form', '' if st == 'held' else T.show(v.p))], D.coverage()
    if isinstance(v, Arr):
        t = D.I.read(v)
        if t is None:
            return [ob('value-honoured', con, 'undecided', lab)], D.coverage()
        return [from_verdict(ri.compare(t, want, ri.shape_exts(D.I.shape(v)), [ri.Model(s) for s in range(2)]), 'value-honoured', con, lab)], D.coverage()
    return [ob('value-honoured', con, 'undecided', lab, '', 'attribute %r' % (v,))], D.coverage()


def c23_derived():
    """defaults that depend on other parameters"""
    out = []
    for cls in ('CBOMemory', 'PSO'):
        for given in (None, 0):
            kw = dict(lamda_memory=(lambda D: Num(sym('lm'))), sigma_memory=(lambda D: NONE) if given is None else (lambda D: Num(0, 'int')))
            D = Dyn(dc.mkcfg(dc.mk(cls, 'none', 'all', **kw)))
            v = D.get('sigma_memory')
            want = mul(sym('lm'), sym('sigma')) if given is None else ZERO
            ok = isinstance(v, Num) and T.equal(v.p, want)
            out.append(ob('value-honoured', cls + '.sigma_memory', 'held' if ok else 'violated', 'default' if given is None else 'zero', 'normal form', '' if ok else repr(v)))
    for given in (None, 0):
        D = Dyn(dc.mkcfg(dc.mk('PSO', 'none', 'all', m=(lambda D: Num(sym('pm'))), gamma=(lambda D: NONE) if given is None else (lambda D: Num(0, 'int')))))
        v = D.get('gamma')
        want = sub(ONE, sym('pm')) if given is None else ZERO
        ok = isinstance(v, Num) and T.equal(v.p, want)
        out.append(ob('value-honoured', 'PSO.gamma', 'held' if ok else 'violated', 'default' if given is None else 'zero', 'normal form', '' if ok else repr(v)))
    return out, D.coverage()


def c23_verbosity(cls):
    """with verbosity 0 nothing is printed"""
    D = Dyn(dc.mkcfg(dc.mk(cls, 'none', 'all')))
    I = D.I
    left = [1]

    def term(I, a, kw):
        left[0] -= 1
        return Num(ONE if left[0] < 0 else ZERO, 'bool')
    I.setattr(D.obj, 'terminate', Py(term, 'terminate'))
    D.call('optimize')
    pr = [e for e in I.events if e.kind == 'print']
    return [ob('silent', cls, 'violated' if pr else 'held', 'verbosity 0', 'effects', 'prints' if pr else '', '%s:%s' % pr[0].site if pr else '')], D.coverage()


def c23_print_frame(cls, verb):
    """printing does not change the dynamic"""
    D = Dyn(dc.mkcfg(dc.mk(cls, 'none', 'all', verbosity=verb)))
    D.generalise()
    I = D.I
    out = []
    before = {a: (D.get(a), D.term(a)) for a in D.attrs()}
    for m in ('print_cur_state', 'print_post_opt'):
        D.call(m)
        for a in sorted(D.attrs()):
            if a not in before or a not in dc.STATE + ('sigma', 'lamda', 'dt', 'it', 't', 'consensus', 'drift', 'active_runs_idx', 'num_active_runs', 'M', 'N', 'batch_size', 'track_it'):
                continue
            v, t = before[a]
            w, u = D.get(a), D.term(a)
            if (v == w or v is w) and t is u or t is None:
                continue
            if u is None or not T.equal(u, t):
                out.append(ob('printing-changes-nothing', '%s.%s' % (cls, a), 'violated', 'verbosity %d %s' % (verb, m), 'effects', 'another value is stored', D.blame(a)))
    out.append(ob('printing-changes-nothing', cls, 'held', 'verbosity %d' % verb, 'effects', '%d attributes' % len(before)))
    return out, D.coverage()


def c23_tasks(tier):
    q = tier == 'quick'
    out = []
    al = [('CBO', dict(noise='covariance'), dict(noise='sampling')), ('CBO', dict(noise=lambda D: NONE), dict(noise='isotropic')),
          ('CBO', dict(correction='none'), dict(correction='no_correction')), ('CBO', dict(correction='no_correction'), {}), ('CBO', dict(noise='isotropic'), {}),
          ('PolarCBO', dict(noise='covariance'), dict(noise='sampling')), ('PolarCBO', dict(kernel='Gaussian'), {}),
          ('MirrorCBO', dict(mirrormap='None'), dict(mirrormap='L2')), ('MirrorCBO', {}, dict(mirrormap={'name': 'L2'})),
          ('MirrorCBO', dict(mirrormap='ProjectionBall'), dict(mirrormap={'name': 'ProjectionBall'})),
          ('HyperSurfaceCBO', {}, dict(sdf={'name': 'sphere'})), ('CBS', dict(noise='covariance'), {}), ('CBS', dict(noise='sampling'), {}), ('CBS', dict(mode='sampling'), {}),
          ('CBO', dict(batch_args=lambda D: NONE), {}), ('CBO', dict(correction_eps=0.5), {})]
    for i, (cl, a, b) in enumerate(al):
        out.append(('alias %d' % i, c23_alias, (cl, a, b)))
        if not q:
            out.append(('alias all %d' % i, c23_alias, (cl, a, b, 'none', 'all')))
            if cl != 'CBS' and 'batch_args' not in a:
                out.append(('alias batch %d' % i, c23_alias, (cl, a, b, 'partial', 'subset')))
    for cl in dc.BY:
        if cl not in ('HyperSurfaceCBO', 'CBS'):
            for b, a in ([('none', 'subset')] if q else [('none', 'subset'), ('none', 'all'), ('partial', 'subset'), ('full', 'subset')]):
                out.append(('noise callable %s %s %s' % (cl, b, a), c23_noise_callable, (cl, b, a)))
                if cl not in ('HyperSurfaceCBO', 'PolarCBO'):
                    out.append(('consensus callable %s %s %s' % (cl, b, a), c23_consensus_callable, (cl, b, a)))
                if cl in dc.CORRECTED:
                    out.append(('correction callable %s %s %s' % (cl, b, a), c23_correction_callable, (cl, b, a)))
        out.append(('keyword ' + cl, c23_unknown_keyword, (cl,)))
        out.append(('verbosity ' + cl, c23_verbosity, (cl,)))
        out += [('printing %s %d' % (cl, v), c23_print_frame, (cl, v)) for v in (1, 2)]
    for cl in ('ParticleDynamic', 'CBXDynamic', 'UserParticle'):
        out += [('keyword ' + cl, c23_unknown_keyword, (cl,)), ('verbosity ' + cl, c23_verbosity, (cl,))]
    for bd in BAD:
        out.append((bd[0] + ' ' + bd[1], c23_rejected, bd))
    out.append(('correction eps', dc.c08_update, (dc.eps_variant('CBO'),)))
    for o, cl, key, names in NEAR:
        for nm in names:
            out.append(('near miss %s %r' % (o, nm), c23_rejected, ('%s %r' % (o, nm), cl, key(nm), None)))
    out += [('CBS domain', c23_cbs_multidim, ()), ('polar factor', c23_polar_factor, ()), ('derived', c23_derived, ())]
    for cl, ps in PARAMS.items():
        for p in ps:
            for z in (False, True):
                out.append(('value %s.%s %s' % (cl, p, z), c23_value, (cl, p, z)))
    return out


# ---------------------------------------------------------------- C10 initial state
INITD = [('CBO', {}), ('CBOMemory', {}), ('PSO', {}), ('AdamCBO', {}), ('CBS', {}), ('DriftConstrainedCBO', {}), ('HyperSurfaceCBO', {}), ('MirrorCBO', {}), ('PolarCBO', {}), ('RegCombinationCBO', {})]


def dim_of(v):
    return v.p if isinstance(v, Num) else None


def c10_given(cls, rank, extra=False, single=()):
    """positions given as (d,), (N, d) or (M, N, d); single: axes of length one (a single run, particle or coordinate)"""
    kw = {}
    if rank < 3:
        kw['x'] = lambda D: D.mkarr('XG', tuple(D.xshape)[3 - rank:])
    if single:
        kw['x'] = lambda D: D.mkarr('XG', tuple(mkdim(ONE) if k in single else q for k, q in enumerate(D.xshape))[3 - rank:])
    if extra:                                     # sizes given besides: the positions decide
        kw.update(M=lambda D: Num(7, 'int'), N=lambda D: Num(11, 'int'))
    D = Dyn(dc.mkcfg(dc.mk(cls, 'none', 'all', **kw)))
    I = D.I
    lab = 'rank %d%s%s' % (rank, ', sizes given' if extra else '', ', one ' + ' and '.join(('run', 'particle', 'coordinate')[k] for k in single) if single else '')
    con = cls + '.x'
    want = [M, N, D.dd[0]] if rank == 3 else [ONE, N, D.dd[0]] if rank == 2 else [ONE, ONE, D.dd[0]]
    want = [ONE if k in single else w for k, w in enumerate(want)]
    sh = D.shape('x')
    got = [extent(q) for q in sh]
    out = [ob('initial-shape', con, 'held' if len(got) == 3 and all(T.equal(a, b) for a, b in zip(got, want)) else 'violated', lab, 'shape', '(%s)' % ', '.join(T.show(x) for x in got))]
    t = D.term('x')
    if t is not None and len(sh) == 3:
        idx = [axis_index(vs, q) for vs, q in zip(shape_vars(sh), sh)]
        ref = T.arr('X0', idx) if rank == 3 and not single else T.arr('XG', [i for k, i in enumerate(idx) if k >= 3 - rank and k not in single])
        out.append(from_verdict(ri.compare(t, ref, ri.shape_exts(sh), [ri.Model(s) for s in range(4)]), 'initial-positions', con, lab))
    out += counters(D, cls, lab, want)
    return out, D.coverage()


def counters(D, cls, lab, want):
    I = D.I
    out = []
    for k, w in (('M', want[0]), ('N', want[1])):
        v = D.get(k)
        ok = isinstance(v, Num) and T.equal(v.p, w)
        out.append(ob('initial-state', '%s.%s' % (cls, k), 'held' if ok else 'violated', lab, 'normal form', '' if ok else repr(v)))
    for k in ('it',) if cls in dc.NO_TIME else ('it', 't'):
        v = D.get(k)
        ok = isinstance(v, Num) and v.p is ZERO
        out.append(ob('initial-state', '%s.%s' % (cls, k), 'held' if ok else 'violated', lab, 'normal form', '' if ok else repr(v)))
    v = D.get('num_active_runs')
    ok = isinstance(v, Num) and T.equal(v.p, want[0])
    out.append(ob('initial-state', cls + '.num_active_runs', 'held' if ok else 'violated', lab, 'normal form', '' if ok else repr(v)))
    a = D.get('active_runs_idx')
    if isinstance(a, Arr) and I.read(a) is not None:
        sh = I.shape(a)
        idx = [axis_index(vs, q) for vs, q in zip(shape_vars(sh), sh)]
        ok = len(sh) == 1 and T.equal(extent(sh[0]), want[0]) and T.equal(I.read(a), idx[0])
        out.append(ob('initial-state', cls + '.active_runs_idx', 'held' if ok else 'violated', lab, 'normal form'))
    be = D.term('best_energy')
    if be is not None:
        sh = D.shape('best_energy')
        ok = len(sh) == 1 and T.equal(extent(sh[0]), want[0])
        out.append(ob('initial-state', cls + '.best_energy', 'held' if ok and be is T.INF else 'violated', lab, 'normal form', T.show(be)))
    for k in {'PSO': ('v',), 'AdamCBO': ('m', 'v')}.get(cls, ()):
        t = D.term(k)
        ok = t is ZERO and [extent(q) for q in D.shape(k)] == [extent(q) for q in D.shape('x')]
        out.append(ob('initial-state', '%s.%s' % (cls, k), 'undecided' if t is None else 'held' if ok else 'violated', lab, 'normal form', '' if ok or t is None else T.show(t)))
    bp = D.shape('best_particle')
    if bp is not None:
        g = [extent(q) for q in bp]
        ok = len(g) == 2 and T.equal(g[0], want[0]) and T.equal(g[1], want[2])
        out.append(ob('initial-state', cls + '.best_particle', 'held' if ok else 'violated', lab, 'shape'))
    return out


def c10_drawn(cls, seeded):
    """positions drawn for given M, N, d: one uniform draw on [-1, 1] per coordinate"""
    kw = dict(x=lambda D: NONE, M=lambda D: Num(M, 'int'), N=lambda D: Num(N, 'int'), d=lambda D: Num(D.dd[0], 'int'))
    if seeded:
        T.INT_SYMS.add('seed')
        kw['seed'] = lambda D: Num(sym('seed'), 'int')
    D = Dyn(dc.mkcfg(dc.mk(cls, 'none', 'all', **kw)))
    lab = 'drawn' + (' seeded' if seeded else '')
    con = cls + '.x'
    sh, t = D.shape('x'), D.term('x')
    want = [M, N, D.dd[0]]
    got = [extent(q) for q in sh]
    out = [ob('initial-shape', con, 'held' if len(got) == 3 and all(T.equal(a, b) for a, b in zip(got, want)) else 'violated', lab, 'shape', '(%s)' % ', '.join(T.show(x) for x in got))]
    if t is None or len(sh) != 3:
        return out + [ob('initial-distribution', con, 'undecided', lab)], D.coverage()
    out.append(uniform_draw(D.I, t, sh, neg(ONE), ONE, 'initial-distribution', con, lab))
    return out + counters(D, cls, lab, want), D.coverage()


def uniform_draw(I, t, sh, lo, hi, rule, con, lab):
    """every entry is lo + (hi - lo) * own standard uniform draw"""
    names = sorted({a.args[0] for a in T.walk(t) if a.kind == 'arr' and isinstance(a.args[0], tuple) and a.args[0][0] == 'rng'})
    ev = {e.data['name']: e.data['kind_'] for e in I.events if e.kind == 'rng'}
    if len(names) != 1:
        return ob(rule, con, 'violated', lab, 'normal form', '%d sources of randomness' % len(names))
    if ev.get(names[0]) != 'uniform01':
        return ob(rule, con, 'violated', lab, 'effects', 'drawn from %s' % ev.get(names[0]))
    idx = [axis_index(vs, q) for vs, q in zip(shape_vars(sh), sh)]
    u = T.arr(names[0], [atom(v) for q in shape_vars(sh) for v in q])
    return from_verdict(ri.compare(t, add(lo, mul(sub(hi, lo), u)), ri.shape_exts(sh), [ri.Model(s) for s in range(4)]), rule, con, lab)


def c10_alpha(array):
    """alpha: a number for all runs or an array with one value per run"""
    kw = dict(alpha=lambda D: D.mkarr('AL', (mkdim(M), ()))) if array else {}
    D = Dyn(dc.mkcfg(dc.mk('CBO', 'none', 'all', **kw)))
    t, sh = D.term('alpha'), D.shape('alpha')
    con, lab = 'CBO.alpha', 'per run' if array else 'number'
    if t is None:
        return [ob('initial-state', con, 'undecided', lab)], D.coverage()
    ok = len(sh) == 2 and T.equal(extent(sh[0]), M) and T.equal(extent(sh[1]), ONE)
    out = [ob('initial-shape', con, 'held' if ok else 'violated', lab, 'shape')]
    if ok:
        m = atom(shape_vars(sh)[0][0])
        out.append(from_verdict(ri.compare(t, T.arr('AL', [m]) if array else sym('alpha'), ri.shape_exts(sh), [ri.Model(s) for s in range(3)]), 'initial-state', con, lab))
    return out, D.coverage()


def c10_util(method, rank, default=False):
    """the helper init_particles"""
    fx = Fx()
    I = fx.I
    dims = fx.dims('M', 'N', 'd')[3 - rank:]
    shape = Tup([Num(e, 'int') for e in dims])
    con = 'init_particles'
    lab = '%s rank %d' % (method, rank)
    kw = dict(shape=shape, method=Str(method))
    lo, hi = sym('xmin'), sym('xmax')
    if default:                                  # documented defaults: uniform on [-1, 1]
        lo, hi = c(-1), ONE
        del kw['method']
        lab += ' default'
    elif method == 'uniform':
        kw.update(x_min=Num(sym('xmin')), x_max=Num(sym('xmax')))
    else:
        kw.update(delta=Num(sym('delta')))
    r = I.call(I.lookup('cbx.utils.particle_init:init_particles'), [], kw)
    t, sh = fx.term(r)
    want = dims if method == 'uniform' or rank == 3 else [ONE] + dims
    got = [extent(q) for q in sh] if sh is not None else []
    out = [ob('initial-shape', con, 'held' if len(got) == len(want) and all(T.equal(a, b) for a, b in zip(got, want)) else 'violated', lab, 'shape', '(%s)' % ', '.join(T.show(x) for x in got))]
    if method == 'uniform' and t is not None:
        out.append(uniform_draw(I, t, sh, lo, hi, 'initial-distribution', con, lab))
    elif t is not None:
        ev = [e for e in I.events if e.kind == 'rng']
        if len(ev) != 1:
            out.append(ob('initial-distribution', con, 'violated', lab, 'effects', '%d draws' % len(ev)))
        elif ev[0].data['kind_'] == 'mvn':
            mean, cov = ev[0].data['mean'], ev[0].data['cov']
            mt, ct = I.read(mean), I.read(cov)
            cs = I.shape(cov)
            i, j = (axis_index(v, q) for v, q in zip(shape_vars(cs), cs))
            out.append(ob('initial-distribution', con, 'held' if mt is ZERO else 'violated', lab + ' mean', 'normal form'))
            out.append(from_verdict(ri.compare(ct, mul(pw(sym('delta'), 2), T.ind_eq(sub(i, j))), ri.shape_exts(cs), [ri.Model(s) for s in range(4)]), 'initial-distribution', con, lab + ' covariance'))
            u = T.arr(ev[0].data['name'], [atom(v) for q in shape_vars(sh) for v in q])
            out.append(from_verdict(ri.compare(t, u, ri.shape_exts(sh), [ri.Model(s) for s in range(3)]), 'initial-distribution', con, lab + ' draw'))
        elif ev[0].data['kind_'] == 'normal':
            u = T.arr(ev[0].data['name'], [atom(v) for q in shape_vars(sh) for v in q])
            ms = [ri.Model(s, syms={'delta': (0.5, 1.7, 1.0)[s]}) for s in range(3)]
            out.append(from_verdict(ri.compare(t, mul(sym('delta'), u), ri.shape_exts(sh), ms), 'initial-distribution', con, lab + ' draw'))
        else:
            out.append(ob('initial-distribution', con, 'violated', lab, 'effects', 'drawn from %s' % ev[0].data['kind_']))
    return out, fx.coverage()


def c10_util_unknown():
    fx = Fx()
    ok, why = raises(lambda: fx.I.call(fx.I.lookup('cbx.utils.particle_init:init_particles'), [], {'method': Str('no such method')}))
    return [ob('option-rejected', 'init_particles', 'held' if ok else 'violated', 'unknown method', 'abstract execution', why or 'accepted')], fx.coverage()


def c10_wrong_objective(kind):
    """an objective with a wrong output shape is rejected by the check at construction"""
    def f(I, args, kw):
        sh = I.shape(args[0])
        if kind == 'full':
            return I.arr(sh, ZERO)
        if kind == 'column':
            return I.arr(tuple(sh[:2]) + ((),), ZERO)
        if kind == 'runs':
            return I.arr(tuple(sh[:1]), ZERO)
        return I.arr((), ZERO)
    ok, why = raises(lambda: Dyn(dc.mkcfg(dc.mk('CBO', 'none', 'all', f=(lambda D: Py(f, 'wrong objective')), check_f_dims=True))))
    return [ob('option-rejected', 'ParticleDynamic.check_f_dims', 'held' if ok else 'violated', 'objective output: ' + kind, 'abstract execution', why or 'accepted')], {}


def c10_tasks(tier):
    out = []
    for cl, _ in INITD:
        for r in (3, 2) if tier == 'quick' else (3, 2, 1):
            out.append(('given %s %d' % (cl, r), c10_given, (cl, r)))
        for s in (False, True):
            out.append(('drawn %s %s' % (cl, s), c10_drawn, (cl, s)))
    out += [('given sizes %d' % r, c10_given, (cl, r, True)) for r in (1, 2, 3) for cl in ('CBO', 'CBOMemory')]
    for cl in ('CBO', 'ParticleDynamic', 'PolarCBO', 'CBOMemory'):
        out += [('given %s %d single %s' % (cl, r, s), c10_given, (cl, r, False, s)) for r in (1, 2, 3) for s in ((0,), (1,), (2,), (0, 1), (0, 2), (1, 2), (0, 1, 2)) if min(s) >= 3 - r]
    for cl in ('ParticleDynamic', 'CBXDynamic', 'UserParticle'):
        out += [('given %s %d' % (cl, r), c10_given, (cl, r)) for r in (1, 2, 3)] + [('drawn %s %s' % (cl, s), c10_drawn, (cl, s)) for s in (False, True)]
    out += [('given CBO 1', c10_given, ('CBO', 1)), ('alpha', c10_alpha, (False,)), ('alpha per run', c10_alpha, (True,)), ('unknown method', c10_util_unknown, ())]
    out += [('util %s %d' % (m, r), c10_util, (m, r)) for m in ('uniform', 'normal') for r in (2, 3)]
    out.append(('util default', c10_util, ('uniform', 3, True)))
    out += [('wrong objective ' + k, c10_wrong_objective, (k,)) for k in ('full', 'column', 'runs', 'scalar')]
    return out


# ---------------------------------------------------------------- C24 success criteria
SU = 'cbx.utils.success:'


def sdyn(cls='CBO', ddim=1, active='all'):
    D = Dyn(dc.mkcfg(dc.mk(cls, 'none', active, ddim=ddim)))
    D.ready()
    D.set('best_particle', D.mkarr('BP', (mkdim(M),) + tuple(D.xshape[2:])))
    del D.I.events[:]
    return D


def smodels(**syms):
    out = []
    for s in range(7):
        out.append(ri.Model(s, dims=[{}, {'M': 4}, {'d': 3}, {'M': 1}][s % 4], syms={k: v[s % len(v)] for k, v in syms.items()}))
    return out


def result_obs(D, r, ref, con, lab, ms, before):
    I = D.I
    out = []
    get = lambda k: I.heap[r.id].d.get(('s', k)) if r is not None and hasattr(I.heap.get(getattr(r, 'id', None)), 'd') else None
    idx, num, rate = get('idx'), get('num'), get('rate')
    if idx is None or num is None or rate is None:
        return [ob('result', con, 'undecided', lab, '', repr(r))]
    mv = fresh()
    total = T.sum_([(mv, M)], ref(atom(mv)))
    out.append(members(D, idx, ref, 'successful-runs', con, lab, ms))
    for v, w, k in ((num, total, 'num'), (rate, div(total, M), 'rate')):
        t = v.p if isinstance(v, Num) else None
        out.append(ob('success-' + k, con, 'undecided', lab) if t is None else from_verdict(ri.compare(t, w, {}, ms), 'success-' + k, con, lab))
    out.append(ob('dynamic-unchanged', con, 'held' if unchanged(D, before) else 'violated', lab, 'effects', changed(D, before)))
    return out


def snap(D):
    return {k: (v, D.I.read(v) if isinstance(v, Arr) else None) for k, v in D.attrs().items()}


def changed(D, before):
    now = D.attrs()
    bad = [k for k in set(before) | set(now) if k not in now or k not in before or now[k] is not before[k][0] and not (isinstance(now[k], Num) and now[k] == before[k][0])
           or isinstance(now[k], Arr) and before[k][1] is not None and D.I.read(now[k]) is not before[k][1]]
    return ', '.join(sorted(bad))


def unchanged(D, before):
    return not changed(D, before)


def dist_ref(D, p, xt):
    def ref(m):
        vs = [fresh() for _ in D.dd]
        at = T.abs_(sub(xt([atom(v) for v in vs]), T.arr('BP', [m] + [atom(v) for v in vs])))
        b = list(zip(vs, D.dd))
        nv = T.max_(b, at) if p == 'inf' else T.sqrt(T.sum_(b, mul(at, at))) if p == 2 else T.sum_(b, at)
        return T.ind_gt(sub(sym('tol'), nv))
    return ref


def c24_dist(p, ddim, cls='CBO', active='subset'):
    D = sdyn(cls, ddim, active)
    I = D.I
    T.SYM_POS.add('tol')
    T.SYM_NONNEG.add('tol')
    xt = D.mkarr('XT', tuple(D.xshape[2:]))
    kw = {'tol': Num(sym('tol'))}
    if p == 'inf':
        kw['p'] = Num(T.INF)
    elif p is not None:
        kw['p'] = Num(p, 'int')
    o = I.call(I.lookup(SU + 'dist_to_min'), [xt], kw)
    before = snap(D)
    r = I.call(o, [D.obj], {})
    lab = '%s p=%s ddim=%d' % (cls, p, ddim)
    ref = dist_ref(D, 'inf' if p is None else p, lambda ks: T.arr('XT', ks))
    return result_obs(D, r, ref, 'dist_to_min', lab, smodels(tol=(0.5, 0.9, 1.4, 0.2)), before), D.coverage()


def c24_value(cls='CBO', ddim=1, active='subset'):
    D = sdyn(cls, ddim, active)
    I = D.I
    o = I.call(I.lookup(SU + 'value_thresh'), [], {'thresh': Num(sym('th'))})
    before = snap(D)
    r = I.call(o, [D.obj], {})
    vs = [fresh() for _ in D.dd]
    ref = lambda m: T.ind_gt(sub(sym('th'), T.app('F', list(zip(vs, D.dd)), (T.arr('BP', [m] + [atom(v) for v in vs]),), ())))
    return result_obs(D, r, ref, 'value_thresh', '%s ddim=%d' % (cls, ddim), smodels(th=(0.2, -0.3, 0.6)), before), D.coverage()


def c24_evaluation(k, verb=0, active='all'):
    """runs for which all criteria hold"""
    D = sdyn(active=active)
    I = D.I
    xt = D.mkarr('XT', tuple(D.xshape[2:]))
    T.SYM_POS.add('tol')
    T.SYM_NONNEG.add('tol')
    cr = [I.call(I.lookup(SU + 'dist_to_min'), [xt], {'tol': Num(sym('tol'))}), I.call(I.lookup(SU + 'value_thresh'), [], {'thresh': Num(sym('th'))})]
    use = {0: [], 1: cr[:1], 2: cr, -2: cr[::-1]}[k]
    e = I.call(I.lookup(SU + 'evaluation'), [], {'criteria': I.mklist(use), 'verbosity': Num(verb, 'int')})
    before = snap(D)
    r = I.call(e, [D.obj], {})
    d1 = dist_ref(D, 'inf', lambda ks: T.arr('XT', ks))
    kv = fresh()
    d2 = lambda m: T.ind_gt(sub(sym('th'), T.app('F', [(kv, D.dd[0])], (T.arr('BP', [m, atom(kv)]),), ())))
    ref = lambda m: ONE if k == 0 else d1(m) if k == 1 else mul(d1(m), d2(m))
    lab = '%d criteria%s%s' % (abs(k), ' reversed' if k < 0 else '', ' verbose' if verb else '')
    out = result_obs(D, r, ref, 'evaluation', lab, smodels(tol=(0.9, 1.4, 0.6, 1.2), th=(0.2, 0.5, 0.9)), before)
    pr = [x for x in I.events if x.kind == 'print']
    if not verb:
        out.append(ob('silent', 'evaluation', 'violated' if pr else 'held', lab, 'effects', 'prints with verbosity 0' if pr else ''))
    return out, D.coverage()


def c24_tasks(tier):
    out = [('dist %s %d' % (p, dd_), c24_dist, (p, dd_)) for p in (None, 'inf', 2, 1) for dd_ in (1, 2)]
    out += [('value %d' % q, c24_value, ('CBO', q)) for q in (1, 2)]
    out += [('evaluation %d %d' % (k, v), c24_evaluation, (k, v, a)) for k in (0, 1, 2, -2) for v in (0, 1) for a in ('all', 'subset')]
    for cl in ('CBOMemory', 'PSO', 'MirrorCBO', 'PolarCBO', 'CBS') if tier == 'quick' else [x for x in dc.BY if x != 'CBO']:
        out.append(('dist ' + cl, c24_dist, (None, 1, cl)))
        if cl != 'RegCombinationCBO':       # its objective is the regularised one, see C29
            out.append(('value ' + cl, c24_value, (cl, 1)))
    return out
