"""C04 evaluation budget, C13 termination criteria, C14 optimisation loop and step bookkeeping."""
from . import terms as T, ri
from .terms import ZERO, ONE, atom, add, sub, mul, div, neg, fresh
from .fx import Fx, sym, c, pw, sumv, opaque_field, axis_index
from .runner import ob, from_verdict, ROOT
from .interp import Arr, Num, NONE, Py, Obj, Raised, extent, shape_vars, Tup, Lst, Str, UNDEF, Event, Phi
from .config import Cfg, Dyn, M, N, B, A, to_v
from .spec import View, Fapp, models_for, sums
from . import dynchecks as dc

TM = 'cbx.utils.termination:'


def pos(*names):
    for s in names:
        T.SYM_POS.add(s)
        T.SYM_NONNEG.add(s)


def crit(D, name, **kw):
    I = D.I
    return I.call(I.lookup(TM + 'select_term'), [to_v(I, dict(name=name, **kw))], {})


def bool_term(D, v):
    """(term, index m, shape) of a criterion result"""
    I = D.I
    if isinstance(v, Arr):
        t, sh = I.read(v), I.shape(v)
        if len(sh) != 1:
            return 'shape', None, sh
        return t, (atom(shape_vars(sh)[0][0]) if sh[0] else ZERO), sh
    return None, None, None


def crit_ob(D, v, ref, construct, config, models=None, guard=None, npoints=10):
    t, m, sh = bool_term(D, v)
    if t == 'shape':
        return ob('termination-criterion', construct, 'violated', config, 'shape', 'one flag per run expected, got shape (%s)' % ', '.join(T.show(extent(q)) for q in sh))
    if t is None:
        return ob('termination-criterion', construct, 'undecided', config, '', 'unknown value')
    if extent(sh[0]) is not M:
        return ob('termination-criterion', construct, 'violated', config, 'shape', '%s flags for M runs' % T.show(extent(sh[0])))
    vd = ri.compare(t, ref(m), ri.shape_exts(sh), models or models_for(D, 6), npoints=npoints, guard=guard(m) if guard else None)
    return from_verdict(vd, 'termination-criterion', construct, config)


class Wide(ri.Model):
    """integer symbols spread over a range that straddles the counters"""

    def sym(self, n):
        if n == 'max_eval':
            return float(int(14 * ri.h01(self.seed, 'me')))
        return super().sym(n)


def c04_budget(d):
    """a run for which max_eval has not fired stays within the budget in the next step, and fires only if the step would exceed it"""
    D = Dyn(dc.mkcfg(d))
    D.ready()
    I = D.I
    T.INT_SYMS.add('max_eval')
    cr = crit(D, 'max_eval', max_eval=Num(sym('max_eval'), 'int'))
    name = 'max_eval_term'
    r = I.call(cr, [D.obj], {})
    t, m, sh = bool_term(D, r)
    if t == 'shape' or t is None:
        return [crit_ob(D, r, lambda m: ZERO, name, dc.label(d))], D.coverage()
    D.step()
    n1, s1 = D.term('num_f_eval'), D.shape('num_f_eval')
    if n1 is None:
        return [ob('evaluation-budget', name, 'undecided', dc.label(d), '', 'unknown counter')], D.coverage()
    V = View(D)
    mm = atom(shape_vars(s1)[0][0])
    models = []
    for s in range(10):
        dims = {'R': 1} if d.get('exhausted') else {}
        if s % 3 == 1:
            dims['A'] = 1
        models.append(Wide(s, dims=dims))
    ex = ri.shape_exts(s1)
    act = V.act(mm)
    run = T.subst(t, {shape_vars(sh)[0][0]: mm})
    over = T.ind_gt(sub(n1, sym('max_eval')))
    # also holds when the budget was exhausted before (the run then stays terminated), so start within the budget
    g = mul(act, T.ind_ge(sub(sym('max_eval'), T.arr(('S', 'num_f_eval'), [mm]))))
    v1 = ri.compare(mul(T.not_(run), over), ZERO, ex, models, npoints=6, guard=g)
    v2 = ri.compare(mul(run, T.not_(over)), ZERO, ex, models, npoints=6, guard=g)
    return [from_verdict(v1, 'evaluation-budget', name, dc.label(d) + ' not exceeded'),
            from_verdict(v2, 'evaluation-budget', name, dc.label(d) + ' not stopped early')], D.coverage()


def c04_tasks(tier):
    ds = dc.base(tier) if hasattr(dc, 'base') else dc.configs(tier)
    ds = ds + dc.correction_variants(tier) + [dc.mk('CBO', 'none', 'subset', ddim=2)]
    return [(dc.label(d), c04_budget, (d,)) for d in ds]


# ------------------------------------------------------------------ C13
class Grid(ri.Model):
    """objective values on a coarse grid, so that they meet thresholds exactly"""

    def uf(self, name, vals):
        return round(2 * super().uf(name, vals)) / 2


def c13_energy(cls, batch):
    D = dc.make(dc.mk(cls, batch, 'subset'))
    V = View(D)
    cr = crit(D, 'energy_tol', energy_tol=Num(sym('tol')))
    e = D.term('energy')
    vs = shape_vars(D.shape('energy'))
    b = fresh()
    ref = lambda m: T.ind_gt(sub(sym('tol'), T.min_([(b, N)], T.subst(e, {vs[0][0]: m, vs[1][0]: atom(b)}))))
    ms = models_for(D, 6)
    for s in range(8):
        ms.append(Grid(s, dims=dict(ms[s % 6].dims), syms={'tol': (0.5, 0.0, -0.5, -1.0)[s % 4]}))
    return [crit_ob(D, D.I.call(cr, [D.obj], {}), ref, 'energy_tol_term', '%s %s' % (cls, batch), models=ms)], D.coverage()


def c13_diff(cls, batch, ddim=1):
    D = dc.make(dc.mk(cls, batch, 'subset', ddim=ddim))
    pos('tol')
    cr = crit(D, 'diff_tol', diff_tol=Num(sym('tol')))
    x1, x0 = D.term('x'), D.preterm('x')
    vs = shape_vars(D.xshape)
    if x1 is None or x0 is None:
        return [ob('termination-criterion', 'diff_tol_term', 'undecided', cls)], D.coverage()
    if cls == 'DriftConstrainedCBO':
        pass
    def ref(m):
        s = sums([N] + D.dd, lambda n, *k: pw(sub(T.subst(x1, dict(zip([q[0] for q in vs], (m, n) + k))), T.subst(x0, dict(zip([q[0] for q in vs], (m, n) + k)))), 2))
        return T.ind_gt(sub(sym('tol'), div(T.sqrt(s), N)))
    ms = models_for(D, 6)
    for s in range(2):                       # particles at rest, tolerance zero
        ms.append(ri.Model(s, dims=dict(ms[s].dims), syms={k: 0.0 for k in ('tol', 'lamda', 'sigma', 'lamda_memory', 'sigma_memory', 'S.lamda', 'S.sigma', 'S.lamda_memory', 'S.sigma_memory')}))
    return [crit_ob(D, D.I.call(cr, [D.obj], {}), ref, 'diff_tol_term', '%s %s%s' % (cls, batch, ' ddim=%d' % ddim if ddim > 1 else ''), models=ms)], D.coverage()


def c13_it_time():
    D = dc.make(dc.mk('CBO', 'none', 'subset'))
    I = D.I
    out = []
    T.INT_SYMS.add('mi')
    pos('mt')
    it, t = D.term('it'), D.term('t')
    ms = [ri.Model(s) for s in range(24)]
    for s in range(3):                       # time limit met exactly
        mo = ri.Model(s)
        mo.syms = dict(mo.syms, mt=lambda model: model.ev(t, {}) + (0.0, 0.25, -0.25)[model.seed % 3])
        ms.append(mo)
    out.append(crit_ob(D, I.call(crit(D, 'max_it', max_it=Num(sym('mi'), 'int')), [D.obj], {}), lambda m: T.ind_ge(sub(it, sym('mi'))), 'max_it_term', 'max_it', models=ms))
    out.append(crit_ob(D, I.call(crit(D, 'max_it', max_it=None), [D.obj], {}), lambda m: ZERO, 'max_it_term', 'None'))
    out.append(crit_ob(D, I.call(crit(D, 'max_time', max_time=Num(sym('mt'))), [D.obj], {}), lambda m: T.ind_ge(sub(t, sym('mt'))), 'max_time_term', 'max_time', models=ms))
    # defaults and alternative spellings
    for nm, cls, at, val in (('energy-tol', 'energy_tol_term', 'energy_tol', 1e-7), ('diff-tol', 'diff_tol_term', 'diff_tol', 1e-7), ('max-eval', 'max_eval_term', 'max_eval', 1000),
                             ('max-it', 'max_it_term', 'max_it', 1000), ('max-time', 'max_time_term', 'max_time', 10.)):
        for sp in (nm, nm.replace('-', ' '), nm.replace('-', '_')):
            for form in ('str', 'dict'):
                o = I.call(I.lookup(TM + 'select_term'), [to_v(I, sp if form == 'str' else {'name': sp, at: 7})], {})
                got = I.heap[o.id].cls.name if isinstance(o, Obj) else '?'
                v = I.getattr(o, at)
                want = T.const(val) if form == 'str' else c(7)
                ok = got == cls and isinstance(v, Num) and T.equal(v.p, want)
                out.append(ob('criterion-lookup', 'select_term', 'held' if ok else 'violated', '%s %s' % (sp, form), 'abstract execution', got))
        for val in (0, None):
            o = I.call(I.lookup(TM + 'select_term'), [to_v(I, {'name': nm, at: val})], {})
            v = I.getattr(o, at)
            ok = T.equal(v.p, ZERO) if val == 0 and isinstance(v, Num) else val is None and v is NONE
            out.append(ob('criterion-lookup', 'select_term', 'held' if ok else 'violated', '%s=%s' % (at, val), 'abstract execution', repr(v)))
    try:
        I.call(I.lookup(TM + 'select_term'), [to_v(I, {'max_it': 3})], {})
        out.append(ob('criterion-lookup', 'select_term', 'violated', 'dict without name', 'abstract execution', 'accepted'))
    except Raised as e:
        out.append(ob('criterion-lookup', 'select_term', 'held', 'dict without name', 'abstract execution', str(e.exc)))
    p = Py(lambda I, a, k: NONE, 'user')
    r = I.call(I.lookup(TM + 'select_term'), [p], {})
    out.append(ob('criterion-lookup', 'select_term', 'held' if r is p else 'violated', 'callable', 'abstract execution'))
    return out, D.coverage()


def c13_stagnation(patience, active, cls='CBO'):
    """the consensus energies of the last calls enter a window; fires for a run iff their standard deviation is small"""
    d = dc.mk(cls, 'none', active)
    D = dc.make(d)
    I = D.I
    V = View(D)
    pos('tol')
    cr = crit(D, 'energy_stagnation', patience=patience, std_thresh=Num(sym('tol')))
    lab = '%s patience=%d active=%s' % (cls, patience, active)
    out = []
    n0 = D.term('num_f_eval')
    I.call(cr, [D.obj], {})
    # arbitrary window contents
    L = I.getattr(cr, 'losses')
    sh = I.shape(L)
    from .interp import ObjRec, mkdim
    from .schedchecks import attr_is                            # noqa: F401
    new = D.mkarr('LOSS', sh)
    I.setattr(cr, 'losses', new)
    cons, nb = D.term('consensus'), D.term('num_f_eval')
    r = I.call(cr, [D.obj], {})
    cs = shape_vars(D.shape('consensus'))
    it = D.term('it')
    row = V.row
    per = extent(D.shape('consensus')[1])          # consensus points of a run (one per particle for polarised dynamics)
    def val(p, m):
        e = lambda n: Fapp(D, lambda *k: T.subst(cons, dict([(cs[0][0], row(m))] + ([(cs[1][0], n)] if cs[1] else []) + [(q[0], kk) for q, kk in zip(cs[2:], k)])))
        e = div(sumv(per, e), per)
        here = mul(T.ind_eq(sub(p, T.mod(it, c(patience)))), V.act(m))
        return add(T.arr('LOSS', [p, m]), mul(here, sub(e, T.arr('LOSS', [p, m]))))
    def ref(m):
        mean = div(sumv(c(patience), lambda p: val(p, m)), c(patience))
        var = div(sumv(c(patience), lambda p: pw(sub(val(p, m), mean), 2)), c(patience))
        return T.ind_gt(sub(sym('tol'), T.sqrt(var)))
    ms = models_for(D, 8)
    for mo in ms:
        mo.syms = dict(mo.syms, tol=0.05 + 1.2 * ri.h01(mo.seed, 'tolv'))
        mo.syms['S.it'] = float(int(9 * ri.h01(mo.seed, 'itv')))
    if patience == 2:                        # standard deviation equal to the threshold
        for mo in ms[:3]:
            q = type(mo)(mo.seed) if type(mo) is ri.Model else mo
            q.dims, q.syms = dict(mo.dims), dict(mo.syms, tol=0.5)
            q.arrs = dict(mo.arrs, LOSS=lambda model, ix: 0.5 - ix[0])
            ms = ms + [q]
    out.append(crit_ob(D, r, ref, 'energy_stagnation_term', lab, models=ms))
    n1 = D.term('num_f_eval')
    sh = D.shape('num_f_eval')
    m = atom(shape_vars(sh)[0][0])
    v = ri.compare(sub(n1, nb), mul(per, V.act(m)), ri.shape_exts(sh), models_for(D))
    out.append(from_verdict(v, 'criterion-evaluations-counted', 'energy_stagnation_term', lab))
    return out, D.coverage()


class OneFires(ri.Model):
    """a single criterion fires for some runs"""

    def arr(self, n, i):
        if isinstance(n, str) and n[:1] == 'C' and n[1:].isdigit() and int(n[1:]) != self.seed // 2:
            return 0.0
        return super().arr(n, i)


def c13_terminate(k, cls='CBO', active='all'):
    """terminate(): exactly the runs for which no criterion fires stay active; true iff none is left; reasons recorded"""
    crits = []
    T.ARR_PROP.clear()
    def mkc(i):
        return Py(lambda I, a, kw: mkflag(I, i), 'criterion%d' % i)
    def mkflag(I, i):
        from .interp import mkdim
        T.ARR_PROP['C%d' % i] = {'ind'}
        sh = (mkdim(M),)
        return I.arr(sh, T.arr('C%d' % i, [atom(shape_vars(sh)[0][0])]), 'b')
    cs = [mkc(i) for i in range(k)]
    D = Dyn(Cfg(dc.ANY[cls], kw={'term_criteria': cs}, active=active, root=ROOT))
    if active != 'all':                            # runs which stopped before take part in the test like the others
        D.ready()
    for i in range(k):
        T.ARR_PROP['C%d' % i] = {'ind'}
    I = D.I
    r = D.call('terminate')
    out = []
    name = 'ParticleDynamic.terminate'
    lab = '%s, %d criteria%s' % (cls, k, '' if active == 'all' else ', some runs stopped before')
    
    def fires(m):
        r = ZERO
        for i in range(k):
            r = T.or_(r, T.arr('C%d' % i, [m]))
        return r
    models = [ri.Model(s) for s in range(12)] + [OneFires(s) for s in range(2 * k)]
    na = D.term('num_active_runs')
    ref = sumv(M, lambda m: T.not_(fires(m)))
    out.append(from_verdict(ri.compare(na, ref, {}, models), 'active-runs', name, lab + ' number'))
    ai, sh = D.term('active_runs_idx'), D.shape('active_runs_idx')
    if ai is None or len(sh) != 1:
        out.append(ob('active-runs', name, 'undecided', lab))
    else:
        vs = shape_vars(sh)[0]
        b = fresh()
        refi = T.enum(M, b, T.not_(fires(atom(b))), axis_index(vs, sh[0]))
        out.append(from_verdict(ri.compare(ai, refi, ri.shape_exts(sh), models, npoints=4), 'active-runs', name, lab + ' indices'))
        out.append(from_verdict(ri.compare(extent(sh[0]), ref, {}, models), 'active-runs', name, lab + ' length'))
    rp = r.p if isinstance(r, Num) else I.read(r) if isinstance(r, Arr) else None
    if rp is None:
        out.append(ob('terminates-when-none-active', name, 'undecided', lab))
    else:
        alld = T.ind_eq(ref)
        ms = models + [type('AllFire', (ri.Model,), {'arr': lambda self, n, i: 1.0 if n in ('C0', 'C1', 'C2', 'C3') else ri.Model.arr(self, n, i)})(99)]
        out.append(from_verdict(ri.compare(rp, alld, {}, ms), 'terminates-when-none-active', name, lab))
    return out, D.coverage()


def c13_tasks(tier):
    out = []
    bs = ('none', 'partial') if tier == 'quick' else ('none', 'partial', 'full')
    for cls in ('CBO', 'CBOMemory', 'PSO', 'PolarCBO') + (() if tier == 'quick' else ('AdamCBO', 'MirrorCBO', 'DriftConstrainedCBO', 'HyperSurfaceCBO')):
        for b in bs:
            out.append(('energy %s %s' % (cls, b), c13_energy, (cls, b)))
            out.append(('diff %s %s' % (cls, b), c13_diff, (cls, b)))
    out.append(('diff CBO 2d', c13_diff, ('CBO', 'none', 2)))
    out.append(('it/time', c13_it_time, ()))
    for p in (2, 3) if tier == 'quick' else (1, 2, 3, 5):
        for a in ('all', 'subset'):
            out.append(('stagnation %d %s' % (p, a), c13_stagnation, (p, a)))
            if p == 2:
                out.append(('stagnation polar ' + a, c13_stagnation, (p, a, 'PolarCBO')))
    for k in (1, 2, 3, 4):
        out.append(('terminate %d' % k, c13_terminate, (k,)))
        out.append(('terminate UserParticle %d' % k, c13_terminate, (k, 'UserParticle')))
        out.append(('terminate again %d' % k, c13_terminate, (k, 'CBO', 'subset')))
    return out


# ------------------------------------------------------------------ C14
def c14_step(d):
    """one step: it grows by one, t by dt, parameters stay, post processing runs once on the dynamic"""
    log = []
    post = Py(lambda I, a, k: (log.append((I.guard, a)), NONE)[1], 'post_process')
    D = Dyn(dc.mkcfg(d), post=post)
    D.ready()
    del log[:]
    D.step()
    name = dc.short(d['cls'])
    lab = dc.label(d)
    out = []
    ms = [ri.Model(s) for s in range(6)]
    for at, ref in (('it', lambda: add(D.preterm('it'), ONE)), ('t', lambda: add(D.preterm('t'), D.preterm('dt')))):
        if at == 't' and name in dc.NO_TIME:
            continue
        t = D.term(at)
        if t is None:
            out.append(ob('step-bookkeeping', name + '.' + at, 'undecided', lab))
            continue
        out.append(from_verdict(ri.compare(t, ref(), {}, ms), 'step-bookkeeping', name + '.' + at, lab, D.blame(at)))
    n = ZERO
    for g, a in log:
        n = add(n, g if isinstance(g, T.Poly) else ONE)
    out.append(from_verdict(ri.compare(n, ONE, {}, ms), 'post-process-once', name + '.step', lab))
    for g, a in log:
        ok = len(a) == 1 and a[0] == D.obj
        out.append(ob('post-process-once', name + '.step', 'held' if ok else 'violated', lab + ' argument', 'abstract execution'))
    for at in ('dt', 'sigma', 'lamda', 'alpha', 'M', 'N', 'batch_size', 'max_it'):
        a, b = D.pre.get(at), D.get(at)
        if a is None or name == 'CBS':
            continue
        ta, tb = D.preterm(at), D.term(at)
        if ta is None or tb is None:
            continue
        ex = ri.shape_exts(D.shape(at)) if isinstance(b, Arr) else {}
        out.append(from_verdict(ri.compare(tb, ta, ex, ms), 'parameters-unchanged', name + '.' + at, lab, D.blame(at)))
    return out, D.coverage()


def c14_loop(cls, mode, k, verb=0):
    """optimize: terminate (step update)* : no step without a preceding negative test, one scheduler update per step, returns the best particle"""
    D = Dyn(dc.mkcfg(dc.mk(cls, 'none', 'all', **({'verbosity': verb} if verb else {}))))
    D.generalise()
    I = D.I
    log = []
    left = [k]

    def term(I, a, kw):
        log.append(('T', I.guard))
        left[0] -= 1
        return Num(ONE if left[0] < 0 else ZERO, 'bool')

    def logger(tag):
        return Py(lambda I, a, kw: (log.append((tag, I.guard)), NONE)[1], tag)
    I.setattr(D.obj, 'terminate', Py(term, 'terminate'))
    I.setattr(D.obj, 'step', logger('S'))
    s = I.call(I.lookup('cbx.scheduler:scheduler'), [I.mklist([])], {})
    I.setattr(s, 'update', Py(lambda I, a, kw: (log.append(('U', I.guard, len(a) and a[0] == D.obj)), NONE)[1], 'update'))
    if mode == 'default':
        I.setattr(D.obj, 'default_sched', Py(lambda I, a, kw: s, 'default_sched'))
        r = D.call('optimize')
    elif mode == 'none':
        a0 = D.get('alpha')
        r = D.call('optimize', sched=NONE)
    else:
        r = D.call('optimize', sched=s)
    name = 'ParticleDynamic.optimize'
    lab = '%s sched=%s %d iterations%s' % (cls, mode, k, ' verbosity %d' % verb if verb else '')
    got = ''.join(e[0] for e in log)
    want = 'TSU' * k + 'T' if mode != 'none' else 'TS' * k + 'T'
    out = []
    if any(e[1] is not ONE and not T.is_const(T.P(e[1])) for e in log):
        cond = [e[0] for e in log if e[1] is not ONE]
        out.append(ob('loop-protocol', name, 'violated', lab, 'typestate', 'conditional: %s in %s' % (''.join(cond), got)))
    else:
        out.append(ob('loop-protocol', name, 'held' if got == want else 'violated', lab, 'typestate', 'sequence %s, protocol %s' % (got, want)))
    if any(e[0] == 'U' and not e[2] for e in log):
        out.append(ob('loop-protocol', name, 'violated', lab, 'typestate', 'scheduler updates another object'))
    bp = D.get('best_particle')
    ok = isinstance(r, Arr) and (r == bp or (D.I.read(r) is not None and D.I.read(r) is D.I.read(bp)))
    out.append(ob('returns-best', name, 'held' if ok else 'violated', lab, 'points-to'))
    if mode == 'none':
        out.append(ob('no-scheduler', name, 'held' if D.get('alpha') == a0 else 'violated', lab, 'effects'))
    return out, D.coverage()


def c14_reset(cls):
    """reset: iteration count, time and history start again"""
    D = Dyn(dc.mkcfg(dc.mk(cls, 'none', 'all', track_args={'names': ['x', 'energy', 'update_norm'], 'save_int': 3})))
    D.generalise()
    I = D.I
    D.call('step')
    D.call('reset')
    out = []
    for at in ('it', 'track_it') if cls in dc.NO_TIME else ('it', 't', 'track_it'):
        t = D.term(at)
        out.append(from_verdict(ri.compare(t, ZERO), 'reset', cls + '.' + at, cls) if t is not None else ob('reset', cls + '.' + at, 'undecided', cls))
    h = D.get('history')
    rec = I.heap.get(getattr(h, 'id', None))
    keys = sorted(k[1] for k in rec.d) if rec is not None and hasattr(rec, 'd') else None
    if keys is None:
        out.append(ob('reset', cls + '.history', 'undecided', cls))
    else:
        ok = keys == ['energy', 'update_norm', 'x']
        out.append(ob('reset', cls + '.history', 'held' if ok else 'violated', cls + ' tracked names', 'abstract execution', str(keys)))
        for k2, v in rec.d.items():
            n = len(I.heap[v.id].items) if isinstance(v, Lst) and I.heap[v.id].sym is None else None
            want = 1 if k2[1] == 'x' else 0
            out.append(ob('reset', cls + '.history', 'undecided' if n is None else 'held' if n == want else 'violated', '%s %s' % (cls, k2[1]), 'abstract execution', '%s entries' % n))
    si = D.term('save_int')
    out.append(from_verdict(ri.compare(si, c(3)), 'reset', cls + '.save_int', cls))
    return out, D.coverage()


def c14_tasks(tier):
    ds = dc.configs(tier) + dc.correction_variants(tier) + dc.noise_variants(tier) + ([] if tier == 'quick' else dc.kernel_variants(tier) + dc.multidim_variants(tier))
    if tier == 'quick':
        ds = [d for d in ds if d['batch'] in ('none', 'full')]
    ds += dc.user_configs(tier)
    out = [(dc.label(d), c14_step, (d,)) for d in ds]
    for cls in ('CBO', 'CBS', 'PSO', 'MirrorCBO', 'UserParticle', 'CBXDynamic') if tier == 'quick' else list(dc.ANY):
        for mode in ('given', 'default', 'none'):
            for k in (0, 1, 2) if tier == 'quick' else (0, 1, 2, 3, 5):
                out.append(('loop %s %s %d' % (cls, mode, k), c14_loop, (cls, mode, k)))
        out.append(('reset ' + cls, c14_reset, (cls,)))
        out += [('loop %s verbosity %d' % (cls, v), c14_loop, (cls, 'given', 2, v)) for v in (1, 2)]
    return out
