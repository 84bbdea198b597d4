"""Inductive one-step obligations of the particle dynamics."""
from . import terms as T, ri
from .terms import ZERO, ONE, atom, fresh, add, sub, mul, div, neg
from .interp import (Arr, Num, Tup, Obj, Py, Str, NONE, UNDEF, Fun, shape_vars, extent, mkdim, AnalysisBroken, TopV, Phi)
from .config import M, N, B, A, R, Cfg, Dyn, to_v, fact
from .spec import S, View, sumv, sums, Fapp, canon_rng, draw_injective, gibbs, models_for
from .runner import ob, from_verdict, ROOT

sym = T.sym
P_SYMS = ('lm', 'sm', 'pm', 'pg', 'b0', 'b1', 'aeps', 'ceps', 'creg', 'nu', 'kappa', 'radius')


def base_kw(cls):
    for s in ('lm', 'sm', 'pm', 'pg', 'aeps', 'ceps', 'kappa', 'radius', 'nu'):
        T.SYM_POS.add(s)
        T.SYM_NONNEG.add(s)
    for s in ('b0', 'b1'):
        T.SYM_POS.add(s)
        T.SYM_NONNEG.add(s)
    c = cls.split(':')[-1]
    if c == 'CBOMemory':
        return {'lamda_memory': sym('lm'), 'sigma_memory': sym('sm')}
    if c == 'PSO':
        return {'lamda_memory': sym('lm'), 'sigma_memory': sym('sm'), 'm': sym('pm'), 'gamma': sym('pg')}
    if c == 'AdamCBO':
        return {'betas': (sym('b0'), sym('b1')), 'eps': sym('aeps')}
    if c == 'DriftConstrainedCBO':
        return {'eps': sym('ceps'), 'constraints': [{'name': 'sphere'}]}
    if c == 'RegCombinationCBO':
        return {'eps': 0.01, 'nu': sym('nu'), 'constraints': [{'name': 'sphere'}]}
    if c == 'PolarCBO':
        return {'kappa': sym('kappa')}
    return {}


CLASSES = ['cbx.dynamics.' + c for c in (
    'cbo:CBO', 'cbo_memory:CBOMemory', 'adamcbo:AdamCBO', 'cbs:CBS', 'driftconstrainedcbo:DriftConstrainedCBO',
    'hypersurfacecbo:HyperSurfaceCBO', 'mirrorcbo:MirrorCBO', 'polarcbo:PolarCBO', 'pso:PSO', 'regcombinationcbo:RegCombinationCBO')]
MEMORY = ('CBOMemory', 'PSO')
# the base classes themselves and custom dynamics derived from them
BASES = {'ParticleDynamic': 'cbx.dynamics.pdyn:ParticleDynamic', 'CBXDynamic': 'cbx.dynamics.pdyn:CBXDynamic', 'UserParticle': 'userdyn:UserParticle', 'UserCBX': 'userdyn:UserCBX'}


def short(cls):
    return cls.split(':')[-1]


BATCH_Q = [('none', False, 'all'), ('none', False, 'subset'), ('partial', False, 'subset'), ('full', False, 'subset'), ('partial', True, 'subset'), ('partial', False, 'all')]
BATCH_T = [(b, e, a) for b, e in (('none', False), ('partial', False), ('partial', True), ('full', False), ('full', True)) for a in ('all', 'subset')]


def configs(tier, classes=None, extra=(), batches=None):
    """extra: list of (class short names or None, kw dict, tag)"""
    out = []
    for c in classes or CLASSES:
        bl = batches or (BATCH_Q if tier == 'quick' else BATCH_T)
        for b, e, a in bl:
            if short(c) == 'CBS' and b != 'none':
                continue
            out.append(dict(cls=c, batch=b, exhausted=e, active=a))
    return out


BY = {c.split(':')[-1]: c for c in CLASSES}
ANY = dict(BY, **BASES)


def mk(name, batch='none', active='subset', ddim=1, exhausted=False, **kw):
    d = dict(cls='torch:' + BY[name[6:]] if name.startswith('torch:') else ANY[name], batch=batch, exhausted=exhausted, active=active)
    if ddim != 1:
        d['ddim'] = ddim
    if kw:
        d['kw'] = kw
    return d


def eps_variants(tier):
    return [mk('RegCombinationCBO', eps=e) for e in (1.0, 300.0, 1e5, 1e20)]


CORRECTED = ('CBO', 'CBOMemory', 'PSO', 'MirrorCBO', 'PolarCBO')
MULTIDIM = ('CBO', 'CBOMemory', 'PSO', 'AdamCBO', 'MirrorCBO', 'PolarCBO')
KERNELS = ('Gaussian', 'Laplace', 'InverseQuadratic', 'Constant', 'Taz')


def noise_variants(tier):
    out = []
    bl = [('none', 'subset')] if tier == 'quick' else [('none', 'all'), ('none', 'subset'), ('partial', 'subset'), ('full', 'subset')]
    for b, a in bl:
        for c in BY:
            if c == 'CBS':
                continue
            for nz in ('anisotropic', 'constant', 'covariance'):
                if nz == 'covariance' and (c in MEMORY or c == 'AdamCBO' or (c == 'PolarCBO' and b == 'full')):
                    continue
                if c == 'HyperSurfaceCBO' and nz == 'covariance':
                    continue
                out.append(mk(c, b, a, noise=nz))
    for md in ('sampling', 'optimization'):
        out.append(mk('CBS', 'none', 'subset', mode=md))
        if tier != 'quick':
            out.append(mk('CBS', 'none', 'all', mode=md))
    if tier == 'quick':
        out += [mk('CBO', 'none', 'all', noise='covariance'), mk('CBO', 'none', 'all', noise='anisotropic'), mk('CBO', 'partial', 'subset', noise='covariance'), mk('CBO', 'full', 'subset', noise='covariance'),
                mk('CBO', 'partial', 'subset', noise='anisotropic'), mk('PolarCBO', 'partial', 'subset', noise='covariance')]
    return out


def correction_variants(tier):
    out = []
    bl = [('none', 'subset'), ('full', 'subset')] if tier == 'quick' else [('none', 'all'), ('none', 'subset'), ('partial', 'subset'), ('partial', 'all'), ('full', 'subset')]
    for b, a in bl:
        for c in CORRECTED:
            for co in ('heavi_side', 'heavi_side_reg'):
                if tier == 'quick' and b == 'full' and co == 'heavi_side_reg':
                    continue
                out.append(mk(c, b, a, correction=co))
            out.append(eps_variant(c, b, a))
    return out


def eps_variant(c, b='none', a='subset'):
    """regularised correction with a given smoothing parameter (of any size)"""
    T.SYM_POS.add('ceps')
    return mk(c, b, a, correction='heavi_side_reg', correction_eps=lambda D: Num(sym('ceps')))


def kernel_variants(tier):
    out = []
    bl = [('none', 'subset')] if tier == 'quick' else [('none', 'all'), ('none', 'subset'), ('partial', 'subset'), ('full', 'subset')]
    for b, a in bl:
        for k in KERNELS:
            for md in ('alpha', 'const'):
                out.append(mk('PolarCBO', b, a, kernel=k, kernel_factor_mode=md))
    return out


def multidim_variants(tier):
    out = []
    for c in MULTIDIM:
        for nz in ('isotropic',) if tier == 'quick' else ('isotropic', 'anisotropic', 'constant'):
            out.append(mk(c, 'partial', 'subset', ddim=2, noise=nz))
            if tier != 'quick':
                out.append(mk(c, 'none', 'subset', ddim=2, noise=nz))
                out.append(mk(c, 'full', 'subset', ddim=2, noise=nz))
    return out


def torch_variants(tier):
    bl = [('none', 'subset'), ('partial', 'subset')] if tier == 'quick' else [(b, a) for b in ('none', 'partial', 'full') for a in ('all', 'subset')]
    out = [mk('torch:' + n, b, a) for n in ('CBO', 'MirrorCBO') for b, a in bl]
    return out + [mk('torch:CBO', 'none', 'subset', noise='anisotropic')]


def uniq(ds):
    out = []
    for d in ds:
        if d not in out:
            out.append(d)
    return out


def all_variants(tier):
    return torch_variants(tier) + noise_variants(tier) + correction_variants(tier) + kernel_variants(tier) + multidim_variants(tier)


def mkcfg(d):
    kw = dict(base_kw(d['cls']))
    kw.update(d.get('kw', {}))
    return Cfg(d['cls'], kw=kw, batch=d.get('batch', 'none'), exhausted=d.get('exhausted', False),
               active=d.get('active', 'all'), ddim=d.get('ddim', 1), root=ROOT)


def label(d):
    s = ['torch ' * d['cls'].startswith('torch:') + short(d['cls']), 'batch=' + d.get('batch', 'none') + ('/exhausted' if d.get('exhausted') else ''), 'active=' + d.get('active', 'all')]
    if d.get('ddim', 1) != 1:
        s.append('ddim=%d' % d['ddim'])
    if d.get('kw'):
        s += ['%s=%s' % (k, show(v)) for k, v in d['kw'].items() if not callable(v)] + ['default post_process'] * ('post_process' in d['kw'])
    return ' '.join(s)


def show(v):
    if isinstance(v, dict):
        return '{' + ','.join('%s:%s' % (k, show(x)) for k, x in v.items()) + '}'
    if isinstance(v, list):
        return '[' + ','.join(show(x) for x in v) + ']'
    return str(v)


NO_TIME = ('ParticleDynamic', 'UserParticle')     # `t` belongs to CBXDynamic


def user_configs(tier, particle=True):
    """custom dynamics derived from the base classes"""
    out = [mk('UserCBX', b, a, exhausted=e) for b, e, a in (BATCH_Q if tier == 'quick' else BATCH_T)]
    if particle:
        out += [mk('UserParticle', 'none', 'all'), mk('UserParticle', 'none', 'all', ddim=2)]
    return out


def make(d, post=None):
    D = Dyn(mkcfg(d), post=post)
    D.ready()
    D.step()
    return D


def findings_obs(D, d, pid_rule='shape'):
    """shape / bounds / type errors found while executing the step abstractly"""
    out = []
    for f in D.findings:
        out.append(ob(f[0] if f[0] else 'shape', '%s:%s' % (short(d['cls']), f[1][0].split(':')[-1]), 'violated', label(d), 'abstract execution', f[2], '%s:%s' % f[1]))
    return out


# --------------------------------------------------------------------------- per-run state
NOT_STATE = ('x_old', 'y_old', 'v_old', 'batch_idx', 'indices', 'update_diff', 'f_min', 'f_min_idx', 'best_cur_particle', 'best_cur_energy')
OBSERVED = ('x', 'y', 'v', 'm', 'energy', 'best_energy', 'best_particle', 'num_f_eval')


def run_state(D):
    """observable attributes carrying one entry per run"""
    out = []
    for k in OBSERVED:
        v = D.get(k)
        if isinstance(v, Arr):
            sh = D.I.shape(v)
            if sh and extent(sh[0]) is M:
                out.append(k)
    return out


class Perturbed(ri.Model):
    """the same model with the state of all runs but one replaced"""

    def __init__(self, seed, run, names, **kw):
        super().__init__(seed, **kw)
        self.run, self.names = run, names

    def arr(self, name, idx):
        if name in self.names and idx and idx[0] != self.run and name != 'ACT':
            pr = T.ARR_PROP.get(name, ())
            if 'perm' in pr:
                return super().arr(name, idx)
            s = self.seed
            self.seed = s + 7777
            try:
                return super().arr(name, idx)
            finally:
                self.seed = s
        return super().arr(name, idx)

    def perm(self, name, lead):
        if name in self.names and lead and lead[0] != self.run:
            k = (name, lead)
            if k not in self.perms:
                s = self.seed
                self.seed = s + 7777
                try:
                    p = super().perm(name, lead)
                finally:
                    self.seed = s
                self.perms[k] = p
            return self.perms[k]
        return super().perm(name, lead)


def state_names(D):
    """array symbols whose first axis is the run axis"""
    out = {('S', 'alpha')}
    for k, sh in D.changed.items():
        if sh and extent(sh[0]) is M:
            out.add(('S', k))
    out.add('X0')
    return out


def dep_run(D, t, shape, names, nmodels=3, npts=6):
    """does entry m of the term depend on the state of runs other than m?"""
    vs = shape_vars(shape)
    m = vs[0][0]
    exts = ri.shape_exts(shape)
    valid = 0
    dims = {'R': 1} if D.cfg.exhausted else {}
    bases = [ri.Model(s, dims=dims) for s in range(nmodels)]
    for s, base in enumerate(bases + ri.gate_models(t, t, bases[0])):
        nM = base.dim('M')
        for run in range(nM):
            pm = Perturbed(base.seed, run, names, dims=base.dims, syms=base.syms)
            pm.hyp = base.hyp
            fv = ri.free_vars(t)
            for env in ri.points(base, fv | {m}, exts, npts, s * 31 + run):
                env = dict(env)
                env[m] = run
                try:
                    a = base.ev(t, env)
                    b = pm.ev(t, env)
                except ri.Skip:
                    continue
                valid += 1
                if not ri.close(a, b):
                    return ri.Verdict(False, 'perturbation', 'entry of run %d changes (%.5g vs %.5g) when only other runs change' % (run, a, b), valid)
    if valid < 3:
        return ri.Verdict(None, 'no-sample')
    return ri.Verdict(True, 'random-interpretation', n=valid)


def syntactic_run_local(t, m, names):
    """every run-indexed symbol in the term is read at run m only (sufficient for independence)"""
    for a in T.walk(T.expand(t)):
        if a.kind == 'arr' and a.args[0] in names:
            i0 = a.args[1][0] if a.args[1] else None
            if i0 is None or T.single_atom(i0) is not m:
                return False
    return True


def c01_independence(d):
    D = make(d)
    out = findings_obs(D, d)
    names = state_names(D)
    for k in run_state(D):
        t, sh = D.term(k), D.shape(k)
        if t is None:
            out.append(ob('run-independence', short(d['cls']) + '.' + k, 'undecided', label(d), '', 'unknown value'))
            continue
        m = shape_vars(sh)[0][0]
        if syntactic_run_local(t, m, names):
            v = ri.Verdict(True, 'dependence closure')
        else:
            v = dep_run(D, t, sh, names)
        out.append(from_verdict(v, 'run-independence', short(d['cls']) + '.' + k, label(d), D.blame(k)))
    # draws: different runs use different random numbers
    t = D.term('x')
    if t is not None:
        V = View(D)
        q, uses, prob, nm = canon_rng(t, [V.m, V.n] + V.ks, [V.m, V.n])
        g = V.act(V.m)
        if D.cfg.batch == 'partial':
            try:
                g = mul(g, V.inb(V.m, V.n))
            except KeyError:
                g = None
        for name in nm:
            if g is None or any(p[0] == name for p in prob):
                out.append(ob('own-draws', short(d['cls']) + '.x', 'undecided', label(d), '', 'draw indices not resolved'))
                continue
            idxs = uses.get(name, ())
            full = [i for i in idxs if all(True for _ in i)]
            lead = []
            for i in full:
                fv = set()
                for q2 in i:
                    fv |= q2.fv
                lead.append(i)
            ok, bad, n = draws_distinct(D, name, lead, V, g)
            out.append(ob('own-draws', short(d['cls']) + '.x', 'held' if ok else 'violated', label(d), 'index map', bad or '%d points' % n))
    return out, D.coverage()


def draws_distinct(D, name, idxs, V, g):
    """(run, particle, coordinate) -> draw is injective; bound coordinates are ignored"""
    outs = [V.m, V.n] + V.ks
    vs = set()
    for o in outs:
        vs |= o.fv
    n = 0
    for idx in idxs:
        free = [i for i in idx if i.fv <= vs]
        if len(free) == len(idx):
            o = outs
        else:
            # matrix-vector noise: the trailing index is summed over; rows must be distinct per particle
            o = [V.m, V.n]
        ok, bad, k = draw_injective(D, name, [tuple(free)], o, g, V.exts, models_for(D, 3))
        n += k
        if not ok:
            return False, bad, n
    return True, '', n


# --------------------------------------------------------------------------- frozen
def frozen_models(D, n=4):
    out = []
    for mo in models_for(D, n):
        out.append(mo)

        def be(model, idx):
            e = [model.arr(('S', 'energy'), (idx[0], j)) for j in range(model.dim('N'))]
            return min(e) - ri.h01(model.seed, 'bslack', idx)
        mo.arrs[('S', 'best_energy')] = be
    return out


def mirror_invariant(D, V, models):
    """MirrorCBO: positions are the mirror image of y (holds after every step)"""
    g = D.preterm('y')
    if g is None:
        return False
    try:
        y = D.I.arr(D.xshape, D.preterm('y'))
        mm = D.get('mirrormap')
        r = D.I.call(D.I.getattr(mm, 'grad_conj'), [y], {})
        t = D.I.read(r)
    except Exception:                                            # noqa: BLE001
        return False
    if t is None:
        return False
    vs = [q[0] for q in shape_vars(D.xshape)]
    for mo in models:
        def xv(model, idx, t=t):
            return model.ev(t, dict(zip(vs, idx)))
        mo.arrs[('S', 'x')] = xv
    return True


def c02_default(d):
    """with the post processing the dynamic installs by itself; positions are finite and below its threshold"""
    d = dict(d)
    d['kw'] = dict(d.get('kw', {}))
    d['kw']['post_process'] = default_post
    return c02_frozen(d)


def default_post(D):
    return UNDEF


def c02_frozen(d):
    D = make(d)
    out = findings_obs(D, d)
    V = View(D)
    models = frozen_models(D)
    if short(d['cls']) == 'MirrorCBO':
        mirror_invariant(D, V, models)
    for k in run_state(D):
        t, p, sh = D.term(k), D.preterm(k), D.shape(k)
        m = atom(shape_vars(sh)[0][0])
        g = T.not_(V.act(m))
        if t is None or p is None:
            out.append(ob('terminated-run-frozen', short(d['cls']) + '.' + k, 'undecided', label(d), '', 'unknown value'))
            continue
        v = ri.compare(t, p, ri.shape_exts(sh), models, npoints=10, guard=g)
        out.append(from_verdict(v, 'terminated-run-frozen', short(d['cls']) + '.' + k, label(d), D.blame(k)))
    return out, D.coverage()


# --------------------------------------------------------------------------- evaluation counts
def event_points(D, e):
    """(#points evaluated per run as a Poly, applies to active runs only) for one objective call"""
    sh = e.data['shape']
    lead = sh[:len(sh) - D.cfg.ddim]
    tot = ONE
    for q in lead:
        tot = mul(tot, extent(q))
    sub_ = D.cfg.active == 'subset'
    has = lambda s: any(extent(q) is s or any(x is s for x in q) for q in lead)
    if sub_ and has(A):
        return div(tot, A), True
    if has(M):
        return div(tot, M), False
    return None, None


def expected_count(D, V, m, events):
    tot = ZERO
    for e in events:
        if e.kind != 'eval':
            continue
        p, act = event_points(D, e)
        if p is None:
            return None
        g = e.guard if isinstance(e.guard, T.Poly) else ONE
        tot = add(tot, mul(g, mul(p, V.act(m)) if act else p))
    return tot


def c03_counts(d):
    D = make(d)
    out = findings_obs(D, d)
    V = View(D)
    t, p, sh = D.term('num_f_eval'), D.preterm('num_f_eval'), D.shape('num_f_eval')
    name = short(d['cls']) + '.num_f_eval'
    if t is None or p is None:
        return out + [ob('count-per-step', name, 'undecided', label(d), '', 'unknown value')], D.coverage()
    m = atom(shape_vars(sh)[0][0])
    exp = expected_count(D, V, m, D.events)
    nev = sum(e.kind == 'eval' for e in D.events)
    if exp is None:
        out.append(ob('count-per-step', name, 'undecided', label(d), '', 'objective called on an array without run axis'))
    else:
        v = ri.compare(sub(t, p), exp, ri.shape_exts(sh), models_for(D), npoints=8)
        o = from_verdict(v, 'count-per-step', name, label(d), D.blame('num_f_eval'))
        o['detail'] = o['detail'] or '%d objective calls in the step' % nev
        out.append(o)
    return out, D.coverage()


def init_configs():
    return [mk(c, b, 'all') for c in ANY for b in (('none',) if c in ('CBS',) + NO_TIME else ('none', 'partial', 'full'))] + [mk(c, 'none', 'all', ddim=2, noise='isotropic') for c in MULTIDIM]


def c03_init(d, check):
    """after construction the counters equal the points evaluated during construction"""
    cfg = mkcfg(d)
    cfg.kw = dict(cfg.kw)
    cfg.kw['check_f_dims'] = check
    D = Dyn(cfg)
    name = short(d['cls']) + '.__init__'
    t = D.term('num_f_eval')
    sh = D.shape('num_f_eval')
    if t is None:
        return [ob('count-at-construction', name, 'undecided', label(d))], D.coverage()
    tot = ZERO
    for e in D.I.events:
        if e.kind == 'eval':
            p, _ = event_points(D, e)
            if p is None:
                return [ob('count-at-construction', name, 'undecided', label(d))], D.coverage()
            tot = add(tot, p)
    v = ri.compare(t, tot, ri.shape_exts(sh), [ri.Model(s) for s in range(4)], npoints=6)
    return [from_verdict(v, 'count-at-construction', name, label(d) + ' check_f_dims=%s' % check)], D.coverage()


# --------------------------------------------------------------------------- best so far
def F_value(model, D, coords):
    """value of the uninterpreted objective at a point (as the models evaluate it)"""
    ns = tuple(int(round(model.ev(e, {}))) for e in D.dd)
    return model.uf(('F', ns, ()), coords)


def core_points(model, D):
    import itertools
    ns = [int(round(model.ev(e, {}))) for e in D.dd]
    return list(itertools.product(*[range(n) for n in ns]))


def best_models(D, memory, n=5):
    """models of the inductive invariant: best_energy = f(best_particle), all known energies have been taken into account"""
    out = models_for(D, n)
    for mo in out:
        if memory:
            def en(model, idx):
                return F_value(model, D, [model.arr(('S', 'y'), idx + q) for q in core_points(model, D)])

            def am(model, m):
                e = [en(model, (m, j)) for j in range(model.dim('N'))]
                return e.index(min(e)), min(e)

            def be(model, idx):
                return am(model, idx[0])[1]

            def bp(model, idx):
                return model.arr(('S', 'y'), (idx[0], am(model, idx[0])[0]) + tuple(idx[1:]))
            mo.arrs[('S', 'energy')] = en
            mo.arrs[('S', 'best_energy')] = be
            mo.arrs[('S', 'best_particle')] = bp
        else:
            def be2(model, idx):
                return F_value(model, D, [model.arr(('S', 'best_particle'), idx + q) for q in core_points(model, D)])

            def en2(model, idx):
                return be2(model, (idx[0],)) + 0.6 * ri.h01(model.seed, 'en', idx)
            mo.arrs[('S', 'energy')] = en2
            mo.arrs[('S', 'best_energy')] = be2
    return out


def c05_best(d):
    D = make(d)
    out = findings_obs(D, d)
    V = View(D)
    c = short(d['cls'])
    mem = c in MEMORY
    models = best_models(D, mem, 6)
    if c == 'MirrorCBO':
        mirror_invariant(D, V, models)
    be, bp, en = D.term('best_energy'), D.term('best_particle'), D.term('energy')
    sh = D.shape('best_energy')
    if be is None or bp is None or en is None:
        return out + [ob('best-so-far', c + '.best_energy', 'undecided', label(d), '', 'unknown value')], D.coverage()
    m = atom(shape_vars(sh)[0][0])
    exts = ri.shape_exts(sh)
    # best_energy' = min(best_energy, min_n energy'[n])
    evs = shape_vars(D.shape('energy'))
    mn = fresh()
    low = T.min_([(mn, N)], T.subst(en, {evs[0][0]: m, evs[1][0]: atom(mn)}))
    v = ri.compare(be, T.minimum(D.preterm('best_energy'), low), exts, models, npoints=10)
    out.append(from_verdict(v, 'best-energy-is-minimum', c + '.best_energy', label(d), D.blame('best_energy')))
    # best_energy' = f(best_particle')
    bvs = shape_vars(D.shape('best_particle'))
    def pt(*k):
        mp = {bvs[0][0]: m}
        for q, kk in zip(bvs[1:], k):
            mp[q[0]] = kk
        return T.subst(bp, mp)
    fbp = Fapp(D, pt)
    if c == 'RegCombinationCBO':
        return out, D.coverage()      # objective is the regularised one, see c05_reg
    v = ri.compare(be, fbp, exts, models, npoints=10)
    out.append(from_verdict(v, 'best-pair', c + '.best_particle', label(d), D.blame('best_particle')))
    # monotone
    v = ri.compare(T.pos(sub(be, D.preterm('best_energy'))), ZERO, exts, models, npoints=10)
    out.append(from_verdict(v, 'best-monotone', c + '.best_energy', label(d), D.blame('best_energy')))
    return out, D.coverage()


def is_consensus(D, e, es, models):
    ct, cs = D.term('consensus'), D.shape('consensus')
    if ct is None or cs is None or [extent(a) for a in cs] != [extent(a) for a in es]:
        return False
    cv, ev = shape_vars(cs), shape_vars(es)
    t = T.subst(ct, {a[0]: atom(b[0]) for a, b in zip(cv, ev)})
    return ri.compare(t, e.data['term'], ri.shape_exts(es), models, npoints=6).eq is True


def c05_points(d):
    """every evaluated particle energy is accounted: best_energy' <= f(p) for each particle position p evaluated in this step"""
    D = make(d)
    out = []
    c = short(d['cls'])
    V = View(D)
    be = D.term('best_energy')
    sh = D.shape('best_energy')
    models = best_models(D, c in MEMORY, 4)
    if c == 'MirrorCBO':
        mirror_invariant(D, V, models)
    if be is None or c == 'RegCombinationCBO':
        return [ob('best-covers-evaluations', c + '.best_energy', 'undecided', label(d))], D.coverage()
    m0 = shape_vars(sh)[0][0]
    for e in D.events:
        if e.kind != 'eval' or e.data['term'] is None:
            continue
        es = e.data['shape']
        if len(es) != 2 + D.cfg.ddim or not es[1]:
            continue            # consensus evaluations of the correction
        vs = shape_vars(es)
        i, j = vs[0][0], vs[1][0]
        if is_consensus(D, e, es, models):
            continue            # particle dependent consensus points evaluated by the correction
        def pt(*k):
            return T.subst(e.data['term'], {vs[2 + q][0]: k[q] for q in range(D.cfg.ddim)})
        fp = Fapp(D, pt)
        b = T.subst(be, {m0: V.run(atom(i)) if extent(es[0]) is A else atom(i)})
        ex = ri.shape_exts(es)
        v = ri.compare(T.pos(sub(b, fp)), ZERO, ex, models, npoints=10)
        out.append(from_verdict(v, 'best-covers-evaluations', c + '.best_energy', label(d), D.blame('best_energy')))
    return out, D.coverage()


STATE = ('x', 'y', 'v', 'm', 'energy', 'best_energy', 'best_particle', 'num_f_eval', 'alpha', 'update_diff', 'f_min', 'best_cur_energy')


def c05_initial(d):
    """base case: no energy is known better than the best one (infinite or the objective value of the particle), and no part of the state shares storage
    with another one, so that the later updates in place do not change each other"""
    D = Dyn(mkcfg(d))
    I = D.I
    c = short(d['cls'])
    out = []
    for at in ('energy', 'best_energy', 'best_cur_energy'):
        t, sh = D.term(at), D.shape(at)
        con = '%s.%s' % (c, at)
        if t is None:
            out.append(ob('initially-no-better', con, 'undecided', label(d)))
            continue
        if at == 'energy' and c in MEMORY:
            continue                          # objective values of the memories, see C11
        out.append(ob('initially-no-better', con, 'held' if t is T.INF else 'violated', label(d), 'normal form', '' if t is T.INF else T.show(t)[:200]))
    arrs = [(a, D.get(a)) for a in STATE if isinstance(D.get(a), Arr)]
    for i, (a, u) in enumerate(arrs):
        for b, w in arrs[i + 1:]:
            sh = I.root_buf(u.id) == I.root_buf(w.id) or bool(set(I.may_alias(u.id)) & set(I.may_alias(w.id)))
            if sh and not {a, b} <= {'energy', 'best_energy', 'update_diff', 'f_min', 'best_cur_energy'}:
                out.append(ob('state-own-storage', '%s.%s' % (c, b), 'violated', label(d), 'points-to', 'shares storage with ' + a))
    out.append(ob('state-own-storage', c, 'held', label(d), 'points-to', '%d arrays' % len(arrs)))
    return out, D.coverage()


def c05_reset(d):
    """optimize returns the best particle"""
    from .nplib import Lib    # noqa: F401
    D = Dyn(mkcfg(d))
    D.ready()
    c = short(d['cls'])
    r = D.call('optimize')
    v = D.get('best_particle')
    ok = isinstance(r, Arr) and isinstance(v, Arr) and (r == v or (D.I.read(r) is not None and D.I.read(r) is D.I.read(v)))
    st = 'held' if ok else 'undecided' if isinstance(r, (TopV, Phi)) else 'violated'
    return [ob('returned-best', c + '.optimize', st, label(d), 'abstract execution', repr(r))], D.coverage()


# --------------------------------------------------------------------------- consensus
def energies_ref(D, V, m, b):
    """reference energy / point of the b-th batch particle of run m"""
    c = short(D.cfg.cls)
    pi = V.pi(m, b)
    if c in MEMORY:
        return S('energy', m, pi), (lambda *k: S('y', m, pi, *k))
    f = Fapp(D, lambda *k: S('x', m, pi, *k))
    if c == 'RegCombinationCBO':
        f = add(f, reg_term(D, lambda *k: S('x', m, pi, *k)))
    return f, (lambda *k: S('x', m, pi, *k))


def reg_term(D, pt):
    """(1/nu) * (|x|^2 - r^2)^2 : squared sphere constraint of the default configuration"""
    q = sumv(D.dd[0], lambda k: mul(pt(k), pt(k)))
    g = sub(q, ONE)
    return div(mul(g, g), sym('nu'))


def neglog_ref(D, kernel, p, q):
    """documented kernels, as -log k(p, q)"""
    kap = sym('kappa')
    sq = sums(D.dd, lambda *k: mul(sub(p(*k), q(*k)), sub(p(*k), q(*k))))
    if kernel == 'Gaussian':
        return div(sq, mul(T.const(2), mul(kap, kap)))
    if kernel == 'Laplace':
        return div(T.sqrt(sq), kap)
    if kernel == 'InverseQuadratic':
        return T.log(add(ONE, div(sq, mul(kap, kap))))
    raise KeyError(kernel)


def polar_terms(D, V, m, n):
    """(extra energy, mask) of the b-th batch particle as seen from particle n of run m, by particle index"""
    kernel = D.cfg.kw.get('kernel', 'Gaussian')
    fac = S('alpha', m) if D.cfg.kw.get('kernel_factor_mode', 'alpha') == 'alpha' else ONE
    kap = sym('kappa')

    def dist(p, q):
        return T.sqrt(sums(D.dd, lambda *k: mul(sub(S('x', m, p, *k), S('x', m, q, *k)), sub(S('x', m, p, *k), S('x', m, q, *k)))))
    if kernel == 'Constant':
        return None, lambda p: T.ind_gt(sub(kap, dist(n, p)))
    if kernel == 'Taz':
        part = V.batched and D.cfg.batch != 'full'
        i, j = fresh(), fresh()
        top = T.max_([(i, V.nb if part else N), (j, V.nb)],
                     dist(V.pi(m, atom(i)) if part else atom(i), V.pi(m, atom(j))))
        def nl(p):
            r = div(dist(n, p), mul(kap, top))
            return mul(fac, mul(r, r))
        return nl, None
    return (lambda p: mul(fac, neglog_ref(D, kernel, lambda *q: S('x', m, n, *q), lambda *q: S('x', m, p, *q)))), None


def consensus_ref(D, V, m, n, *k):
    """expected consensus point of (run m, particle n)"""
    c = short(D.cfg.cls)
    al = S('alpha', m)
    extra = mask = None
    if c == 'PolarCBO':
        ex, mk = polar_terms(D, V, m, n)
        extra = ex and (lambda b: ex(V.pi(m, b)))
        mask = mk and (lambda b: mk(V.pi(m, b)))
    return gibbs(D, V.nb, lambda b: energies_ref(D, V, m, b)[0], al, lambda b: energies_ref(D, V, m, b)[1](*k), extra, mask)


def stored_energy(D, V, m, p):
    """energy known for particle p of run m during the step"""
    if short(D.cfg.cls) in MEMORY:
        return S('energy', m, p)
    f = Fapp(D, lambda *k: S('x', m, p, *k))
    if short(D.cfg.cls) == 'RegCombinationCBO':
        f = add(f, reg_term(D, lambda *k: S('x', m, p, *k)))
    if D.cfg.batch != 'full':
        return f
    inb = sumv(B, lambda b: T.ind_eq(sub(V.pi(m, b), p)))
    e0 = S('energy', m, p)
    return add(e0, mul(inb, sub(f, e0)))


def c06_consensus(d):
    D = make(d)
    out = findings_obs(D, d)
    V = View(D)
    c = short(d['cls'])
    lab = label(d)
    t, sh = D.term('consensus'), D.shape('consensus')
    models = models_for(D, 4)
    if t is None or sh is None or len(sh) != 2 + D.cfg.ddim:
        out.append(ob('consensus-is-gibbs-mean', c + '.consensus', 'undecided', lab, '', 'unknown value or shape %s' % (sh,)))
    else:
        vs = shape_vars(sh)
        # express per run: the rows of the consensus are the active runs in order
        mp = {}
        if vs[0]:
            mp[vs[0][0]] = V.row(V.m)
        g = V.act(V.m)
        n = V.n
        if vs[1]:
            # one consensus per updated particle (polar): position j is the j-th updated particle
            j = vs[1][0]
            n = V.pi(V.m, atom(j)) if (V.batched and D.cfg.batch != 'full') else atom(j)
        for q, k in zip(vs[2:], V.ks):
            mp[q[0]] = k
        tt = T.subst(t, {a: b for a, b in mp.items() if atom(a) is not b})
        try:
            ref = consensus_ref(D, V, V.m, n, *V.ks)
        except KeyError as e:
            ref = None
            out.append(ob('consensus-is-gibbs-mean', c + '.consensus', 'undecided', lab, '', str(e)))
        if ref is not None:
            ex = dict(V.exts)
            ex.update(ri.shape_exts(sh))
            if vs[1]:
                ex[vs[1][0]] = extent(sh[1])
            # rows beyond the active runs do not exist
            rows = extent(sh[0])
            if V.subset and rows is not A or not V.subset and rows is not M:
                out.append(ob('consensus-per-active-run', c + '.consensus', 'violated', lab, 'shape', 'rows: %s' % rows, D.blame('consensus')))
            if V.subset and vs[0]:
                # vary the row instead of the run: run = enum(row)
                tt = t
                mp2 = {q[0]: k for q, k in zip(vs[2:], V.ks) if atom(q[0]) is not k}
                tt = T.subst(t, mp2) if mp2 else t
                row = atom(vs[0][0])
                run = V.run(row)
                nn = n
                if vs[1]:
                    nn = V.pi(run, atom(vs[1][0])) if (V.batched and D.cfg.batch != 'full') else atom(vs[1][0])
                ref = consensus_ref(D, V, run, nn, *V.ks)
                ex[vs[0][0]] = extent(sh[0])
                g = None
            v = ri.compare(tt, ref, ex, models, npoints=6, guard=g)
            out.append(from_verdict(v, 'consensus-is-gibbs-mean', c + '.consensus', lab, D.blame('consensus')))
    # stored energies are the objective values of the evaluated positions
    en = D.term('energy')
    if en is not None:
        es = shape_vars(D.shape('energy'))
        em, e_n = atom(es[0][0]), atom(es[1][0])
        g = V.act(em)
        if c in MEMORY:
            return out, D.coverage()
        inb = ONE
        try:
            if V.batched:
                inb = sumv(B, lambda b: T.ind_eq(sub(V.pi(em, b), e_n)))
            f = Fapp(D, lambda *k: S('x', em, e_n, *k))
            if c == 'RegCombinationCBO':
                f = add(f, reg_term(D, lambda *k: S('x', em, e_n, *k)))
            ref = add(S('energy', em, e_n), mul(mul(inb, V.act(em)), sub(f, S('energy', em, e_n))))
            v = ri.compare(en, ref, ri.shape_exts(D.shape('energy')), models, npoints=8)
            out.append(from_verdict(v, 'energy-at-evaluated-points', c + '.energy', lab, D.blame('energy')))
        except KeyError as e:
            out.append(ob('energy-at-evaluated-points', c + '.energy', 'undecided', lab, '', str(e)))
    return out, D.coverage()


# --------------------------------------------------------------------------- update laws
DT, SIG, LAM = sym('dt'), sym('sigma'), sym('lamda')


def nrm2(D, f):
    return sums(D.dd, lambda *k: mul(f(*k), f(*k)))


def noise_ref(D, kind, drift, z, ks, alpha, cov=None):
    """documented noise vector at one particle: drift(*k), z(*k)"""
    if kind in (None, 'isotropic'):
        return mul(T.sqrt(DT), mul(T.sqrt(nrm2(D, drift)), z(*ks)))
    if kind == 'anisotropic':
        return mul(T.sqrt(DT), mul(drift(*ks), z(*ks)))
    if kind == 'constant':
        return mul(T.sqrt(DT), z(*ks))
    if kind in ('covariance', 'sampling') and cov is not None:
        fac, C = cov
        i, j = [fresh() for _ in ks], [fresh() for _ in ks]
        bi, bj = list(zip(i, D.dd)), list(zip(j, D.dd))
        body = C([atom(v) for v in i], [atom(v) for v in j])
        return mul(fac, sums(D.dd, lambda *l: mul(T.app('matsqrt', bi + bj, (body,), tuple(ks) + tuple(l)), z(*l))))
    raise KeyError('noise %s' % kind)


def cov_ref(D, V, m, n, drift_of, mode):
    """documented covariance noise: (prefactor, weighted covariance of the updated particles of run m around the consensus point)"""
    al = S('alpha', m)
    fac = T.sqrt(mul(T.const(2), mul(DT, add(ONE, al)))) if mode == 'sampling' else T.sqrt(mul(T.const(2), DT))
    part = V.batched and (D.cfg.batch != 'full' or short(D.cfg.cls) == 'PolarCBO')
    ext = V.nb if part else N
    P_ = (lambda b: V.pi(m, b)) if part else (lambda b: b)
    ex = mk = None
    if short(D.cfg.cls) == 'PolarCBO':
        ex, mk = polar_terms(D, V, m, n)

    def C(i, j):
        return gibbs(D, ext, lambda b: stored_energy(D, V, m, P_(b)), al, lambda b: mul(drift_of(P_(b))(*i), drift_of(P_(b))(*j)),
                     ex and (lambda b: ex(P_(b))), mk and (lambda b: mk(P_(b))))
    return fac, C


def correction_ref(D, V, kind, m, n, drift_k, cons):
    """documented drift corrections"""
    if kind in ('no_correction', 'none'):
        return drift_k
    z = sub(stored_energy(D, V, m, n), Fapp(D, cons))
    if kind == 'heavi_side':
        return mul(drift_k, T.ind_gt(z))
    if kind == 'heavi_side_reg':
        e = sym('ceps') if 'correction_eps' in D.cfg.kw else T.const(0.001)
        return mul(drift_k, add(T.const(0.5), mul(T.const(0.5), T.fn('tanh', div(z, e)))))
    raise KeyError(kind)


def x_update_ref(D, V, z1, z2):
    """expected new position of (m, n) at coordinate ks, for updated particles of active runs: dict attr -> term"""
    c = short(D.cfg.cls)
    kw = D.cfg.kw
    m, n, ks = V.m, V.n, V.ks
    noise = kw.get('noise', 'covariance' if c == 'CBS' else 'isotropic')
    corr = kw.get('correction', 'no_correction')
    X = lambda *k: S('x', m, n, *k)
    cons = lambda *k: consensus_ref(D, V, m, n, *k)
    raw_drift = lambda *k: sub(X(*k), cons(*k))
    drift = lambda *k: correction_ref(D, V, corr, m, n, raw_drift(*k), cons)
    al = S('alpha', m)
    def drift_of(p):
        cp = lambda *k: consensus_ref(D, V, m, p, *k)
        return lambda *k: correction_ref(D, V, corr, m, p, sub(S('x', m, p, *k), cp(*k)), cp)
    cov = None
    if noise in ('covariance', 'sampling'):
        cov = cov_ref(D, V, m, n, drift_of, kw.get('mode', 'sampling'))
    nz = lambda dr, z, kk: noise_ref(D, noise, dr, z, kk, al, cov)
    x = X(*ks)
    if c == 'CBS':
        return {'x': add(x, add(neg(mul(mul(LAM, DT), drift(*ks))), nz(drift, z1, ks)))}
    if corr not in ('none', 'no_correction') and c in ('RegCombinationCBO', 'DriftConstrainedCBO', 'HyperSurfaceCBO', 'AdamCBO'):
        raise KeyError('drift correction is not part of this dynamic')
    if c == 'RegCombinationCBO':
        g = sub(nrm2(D, X), ONE)
        xt = add(x, add(neg(mul(mul(LAM, DT), drift(*ks))), mul(SIG, nz(drift, z1, ks))))
        eps = T.const(kw['eps'])
        return {'x': div(xt, add(ONE, mul(mul(T.const(4), div(DT, eps)), g)))}
    if c == 'DriftConstrainedCBO':
        fc = div(DT, sym('ceps'))
        g = sub(nrm2(D, X), ONE)
        rhs = lambda k: add(add(mul(mul(LAM, DT), raw_drift(k)), mul(fc, mul(T.const(4), mul(g, X(k))))), mul(SIG, nz(raw_drift, z1, (k,))))
        i, j = fresh(), fresh()
        ai, aj = atom(i), atom(j)
        dl = T.ind_eq(sub(ai, aj))
        A_ = add(dl, mul(fc, add(mul(T.const(8), mul(X(ai), X(aj))), mul(T.const(4), mul(g, dl)))))
        return {'x': sub(x, T.app('solve', [(i, D.dd[0]), (j, D.dd[0])], (A_, rhs(ai)), (ks[0],)))}
    if c in ('CBO', 'PolarCBO', 'UserCBX'):
        return {'x': add(x, add(neg(mul(mul(LAM, DT), drift(*ks))), mul(SIG, nz(drift, z1, ks))))}
    if c == 'CBOMemory':
        def x1(*k):
            return add(X(*k), add(neg(mul(mul(LAM, DT), drift(*k))), mul(SIG, nz(drift, z1, k))))
        d2 = lambda *k: sub(x1(*k), S('y', m, n, *k))
        return {'x': add(x1(*ks), add(neg(mul(mul(sym('lm'), DT), d2(*ks))), mul(sym('sm'), nz(d2, z2, ks))))}
    if c == 'PSO':
        cd = raw_drift
        md = lambda *k: sub(X(*k), S('y', m, n, *k))
        ccd = correction_ref(D, V, corr, m, n, mul(mul(LAM, DT), cd(*ks)), cons)
        v = add(mul(mul(sym('pm'), DT), S('v', m, n, *ks)), add(ccd, mul(mul(sym('lm'), DT), md(*ks))))
        v = add(v, add(mul(SIG, nz(cd, z1, ks)), mul(sym('sm'), nz(md, z2, ks))))
        v = div(v, add(sym('pm'), mul(sym('pg'), DT)))
        return {'v': v, 'x': add(x, mul(DT, v))}
    if c == 'AdamCBO':
        b0, b1 = sym('b0'), sym('b1')
        dr = raw_drift
        it1 = add(sym('S.it'), ONE)
        mm = add(mul(b0, S('m', m, n, *ks)), mul(sub(ONE, b0), dr(*ks)))
        vv = add(mul(b1, S('v', m, n, *ks)), mul(sub(ONE, b1), mul(dr(*ks), dr(*ks))))
        mh = div(mm, sub(ONE, T._pow_sym(b0, it1)))
        vh = div(vv, sub(ONE, T._pow_sym(b1, it1)))
        st = sub(mul(LAM, div(mh, add(T.sqrt(vh), sym('aeps')))), mul(SIG, nz(dr, z1, ks)))
        return {'m': mm, 'v': vv, 'x': sub(x, st)}
    if c == 'MirrorCBO':
        y = S('y', m, n, *ks)
        return {'y': add(y, add(neg(mul(mul(LAM, DT), drift(*ks))), mul(SIG, nz(drift, z1, ks))))}
    if c == 'HyperSurfaceCBO':
        g = lambda *k: div(X(*k), T.sqrt(nrm2(D, X)))
        w = lambda *k: add(mul(DT, cons(*k)), mul(SIG, nz(raw_drift, z1, k)))
        gw = sums(D.dd, lambda *k: mul(g(*k), w(*k)))
        d2 = nrm2(D, raw_drift)
        if noise == 'anisotropic':
            dx = sums(D.dd, lambda *k: mul(raw_drift(*k), X(*k)))
            con = lambda *k: mul(mul(div(mul(DT, mul(SIG, SIG)), T.const(2)),
                                     sub(add(d2, mul(raw_drift(*k), raw_drift(*k))), mul(T.const(2), mul(dx, dx)))), X(*k))
        else:
            dm1 = sub(D.dd[0], ONE)
            con = lambda *k: mul(mul(div(mul(DT, mul(SIG, SIG)), T.const(2)), div(dm1, T.sqrt(nrm2(D, X)))), mul(d2, g(*k)))
        xt = lambda *k: sub(add(X(*k), sub(w(*k), mul(g(*k), gw))), con(*k))
        return {'x': div(xt(*ks), T.sqrt(nrm2(D, xt)))}
    raise KeyError('no reference update for ' + c)


def c08_update(d, attrs=None):
    D = make(d)
    out = findings_obs(D, d)
    V = View(D)
    c = short(d['cls'])
    lab = label(d)
    t = D.term('x')
    if t is None:
        return out + [ob('update-law', c + '.x', 'undecided', lab, '', 'unknown value')], D.coverage()
    target = 'y' if c == 'MirrorCBO' else 'x'
    Z = lambda o: (lambda *k: T.arr(('Z', o), [V.m, V.n] + list(k)))
    models = models_for(D, 4)
    if 'correction_eps' in D.cfg.kw:
        for i, mo in enumerate(models):
            mo.syms['ceps'] = (0.3, 1.7, 6.0, 0.05)[i % 4]
    try:
        inb = V.inb(V.m, V.n)
        refs = x_update_ref(D, V, Z(0), Z(1))
        swapped = x_update_ref(D, V, Z(1), Z(0)) if c in MEMORY else None
    except KeyError as e:
        return out + [ob('update-law', c + '.' + target, 'undecided', lab, '', str(e))], D.coverage()
    xt = D.term(target)
    names = sorted({a.args[0] for a in T.walk(T.expand(xt)) if a.kind == 'arr' and isinstance(a.args[0], tuple) and a.args[0][0] == 'rng'}) if xt is not None else []
    for k, ref in refs.items():
        t = D.term(k)
        if t is None:
            out.append(ob('update-law', c + '.' + k, 'undecided', lab, '', 'unknown value'))
            continue
        q, uses, prob, nm = canon_rng(t, [V.m, V.n] + V.ks, [V.m, V.n], names)
        if prob:
            out.append(ob('update-law', c + '.' + k, 'undecided', lab, '', 'draw indices not resolved: %s' % (prob[0],)))
            continue
        old = S(k, V.m, V.n, *V.ks)
        sel = mul(V.act(V.m), inb)
        full = lambda r: add(old, mul(sel, sub(r, old)))
        v = ri.compare(q, ref, V.exts, models, npoints=8, guard=sel)
        if v.eq is False and swapped is not None:
            v2 = ri.compare(q, swapped[k], V.exts, models, npoints=8, guard=sel)
            if v2.eq:
                v = v2
        out.append(from_verdict(v, 'update-law', c + '.' + k, lab, D.blame(k)))
        # particles of active runs outside the batch do not move
        if V.batched and D.cfg.batch == 'partial':
            v = ri.compare(q, old, V.exts, models, npoints=10, guard=mul(V.act(V.m), sub(ONE, inb)))
            out.append(from_verdict(v, 'outside-batch-unchanged', c + '.' + k, lab, D.blame(k)))
    return out, D.coverage()


def c11_memory(d):
    """historical best positions: y', energy' = better of (y, energy) and (x', f(x')); energy = f(y) is preserved"""
    D = make(d)
    out = findings_obs(D, d)
    V = View(D)
    c = short(d['cls'])
    lab = label(d)
    x, y, en = D.term('x'), D.term('y'), D.term('energy')
    if x is None or y is None or en is None:
        return out + [ob('memory', c + '.y', 'undecided', lab, '', 'unknown value')], D.coverage()
    models = models_for(D, 5)
    for mo in models:
        mo.arrs[('S', 'energy')] = lambda model, idx: F_value(model, D, [model.arr(('S', 'y'), idx + q) for q in core_points(model, D)])
    xv = shape_vars(D.xshape)
    ev = shape_vars(D.shape('energy'))
    m, n = V.m, V.n
    xk = lambda *k: T.subst(x, {q[0]: kk for q, kk in zip(xv[2:], k)})
    yk = lambda *k: T.subst(y, {q[0]: kk for q, kk in zip(xv[2:], k)})
    enn = T.subst(en, {ev[0][0]: m, ev[1][0]: n})
    inb = V.inb(m, n)
    sel = mul(V.act(m), inb)
    fx = Fapp(D, xk)
    old = S('energy', m, n)
    better = mul(sel, T.ind_gt(sub(old, fx)))
    yo = S('y', m, n, *V.ks)
    v = ri.compare(y, add(yo, mul(better, sub(xk(*V.ks), yo))), V.exts, models, npoints=10)
    out.append(from_verdict(v, 'memory-position', c + '.y', lab, D.blame('y')))
    v = ri.compare(enn, add(old, mul(better, sub(fx, old))), V.exts, models, npoints=10)
    out.append(from_verdict(v, 'memory-energy', c + '.energy', lab, D.blame('energy')))
    v = ri.compare(enn, Fapp(D, yk), V.exts, models, npoints=10)
    out.append(from_verdict(v, 'memory-pair', c + '.energy', lab, D.blame('energy')))
    return out, D.coverage()


def c11_init(d):
    D = Dyn(mkcfg(d))
    c = short(d['cls'])
    out = []
    t = D.term('energy')
    vs = shape_vars(D.shape('energy'))
    m, n = atom(vs[0][0]), atom(vs[1][0])
    yv = shape_vars(D.shape('y'))
    yt = D.term('y')
    yk = lambda *k: T.subst(yt, {yv[0][0]: m, yv[1][0]: n, **{q[0]: kk for q, kk in zip(yv[2:], k)}})
    v = ri.compare(t, Fapp(D, yk), ri.shape_exts(D.shape('energy')))
    out.append(from_verdict(v, 'memory-pair-initially', c + '.__init__', label(d)))
    x, y = D.get('x'), D.get('y')
    shared = D.I.root_buf(x.id) == D.I.root_buf(y.id) or bool(set(D.I.may_alias(x.id)) & set(D.I.may_alias(y.id)))
    out.append(ob('memory-own-storage', c + '.y', 'violated' if shared else 'held', label(d), 'points-to'))
    return out, D.coverage()
