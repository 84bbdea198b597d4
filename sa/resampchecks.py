"""C27 resampling of stagnating runs."""
from . import terms as T, ri
from .terms import ZERO, ONE, atom, add, sub, mul, div, neg, fresh
from .fx import sym, c, pw, sumv
from .runner import ob, from_verdict, ROOT
from .interp import Arr, Num, Str, NONE, Py, extent, mkdim, shape_vars, Obj, UNDEF, ObjRec, Tup, Lst, Phi
from .config import Cfg, Dyn, M, N, A, to_v
from .spec import View, canon_rng, draw_injective, models_for
from . import dynchecks as dc

RM = 'cbx.utils.resampling:'
LETS = 0


def state(cls, active, ddim=1, **kw):
    """a dynamic after a step whose observable state consists of unknown arrays"""
    D = dc.make(dc.mk(cls, 'none', active, ddim=ddim, **kw))
    for k, nm in (('x', 'XP'), ('y', 'YP'), ('update_diff', 'UD'), ('best_energy', 'BE'), ('num_f_eval', 'NE'), ('consensus', 'CO')):
        if D.has(k) and isinstance(D.get(k), Arr):
            sh = D.shape(k)
            D.set(k, D.mkarr(nm, sh, 'i' if k == 'num_f_eval' else 'f', {'int', 'nonneg'} if k == 'num_f_eval' else ()))
    D.I.events[:] = []
    return D


def positive(*names):
    for n in names:
        T.SYM_POS.add(n)
        T.SYM_NONNEG.add(n)


def models(n=16):
    """thresholds that some runs pass and others do not"""
    out = []
    for s in range(n):
        dims = [{}, {'A': 1}, {'M': 4, 'A': 3}, {'d': 3}, {'M': 4, 'A': 2}, {'N': 2}][s % 6]
        out.append(ri.Model(s, dims=dims, syms={'th': (0.2, 0.6, -0.3, 0.0)[s % 4], 'th2': (0.5, -0.2, 0.3)[s % 3], 'th3': (-0.5, 0.4, 1.1, 0.8, 0.9)[s % 5]}))
    out[-1].tol = 0.4
    return out


def below(name, th):
    return lambda m: T.ind_gt(sub(sym(th), T.arr(name, [m])))


def run_axis(D, name, obj=None):
    a = D.get(name) if obj is None else D.I.heap[obj.id].attrs.get(name)
    if not isinstance(a, Arr):
        return None, None, None
    t, sh = D.I.read(a), D.I.shape(a)
    return t, sh, (atom(shape_vars(sh)[0][0]) if sh and sh[0] else None)


def mkres(D, rs, **kw):
    return D.I.call(D.I.lookup(RM + 'resampling'), [D.I.mklist(rs)], {k: to_v(D.I, v) for k, v in kw.items()})


def c27_apply(cls, active, two, var='x', ddim=1):
    D = state(cls, active, ddim)
    I = D.I
    rs = [I.call(I.lookup(RM + 'ensemble_update_resampling'), [Num(sym('th'))], {})]
    if two:
        rs += [I.call(I.lookup(RM + 'ensemble_update_resampling'), [Num(sym(t))], {}) for t in ('th2', 'th3')]
    positive('si')
    R_ = mkres(D, rs, sigma_indep=Num(sym('si')), var_name=Str(var))
    f0 = len(I.findings)
    pre = {k: D.term(k) for k in ('x', 'y', 'energy', 'best_energy', 'best_particle', 'num_f_eval')}
    I.call(R_, [D.obj], {})
    lab = '%s active=%s %s %s%s' % (cls, active, 'three criteria' if two else 'one criterion', var, '' if ddim == 1 else ' ddim=%d' % ddim)
    con = 'resampling'
    out = [ob('shape', con, 'violated', lab, 'abstract execution', f[2], '%s:%s' % f[1]) for f in I.findings[f0:]]
    V = View(D)
    one = below('UD', 'th')
    sel = (lambda m: mul(V.act(m), one(m))) if not two else (lambda m: mul(V.act(m), T.or_(T.or_(one(m), below('UD', 'th2')(m)), below('UD', 'th3')(m))))
    ms = models()
    t = D.term(var)
    old = T.arr({'x': 'XP', 'y': 'YP'}[var], [V.m, V.n] + V.ks)
    if t is None:
        out.append(ob('resampled-position', con, 'undecided', lab))
    else:
        q, uses, prob, nm = canon_rng(t, [V.m, V.n] + V.ks, [V.m, V.n])
        z = T.arr(('Z', 0), [V.m, V.n] + V.ks)
        ref = add(old, mul(sel(V.m), mul(mul(sym('si'), T.sqrt(sym('dt'))), z)))
        # draw indices are ranks of the selected runs: only defined for those
        v = ri.compare(q, ref, V.exts, ms, npoints=10, guard=sel(V.m))
        out.append(from_verdict(v, 'resampled-position', con, lab))
        v = ri.compare(t, old, V.exts, ms, npoints=10, guard=sub(ONE, sel(V.m)))
        out.append(from_verdict(v, 'other-runs-unchanged', con, lab))
        for name, idxs in sorted(uses.items(), key=str):
            ok, why, n = draw_injective(D, name, idxs, [V.m, V.n] + V.ks, sel(V.m), V.exts, ms[:4])
            out.append(ob('draws-distinct', con, 'violated' if not ok else 'held' if n else 'undecided', lab, 'random-interpretation', why or ''))
    nr, sh, m = run_axis(D, 'num_resampling', R_)
    if nr is None:
        out.append(ob('resampling-count', con, 'undecided', lab))
    else:
        out.append(from_verdict(ri.compare(nr, sel(m), ri.shape_exts(sh), ms, npoints=10), 'resampling-count', con, lab))
        # a second application adds to the counter
        I.call(R_, [D.obj], {})
        nr, sh, m = run_axis(D, 'num_resampling', R_)
        out.append(ob('resampling-count', con, 'undecided', lab) if nr is None else
                   from_verdict(ri.compare(nr, mul(c(2), sel(m)), ri.shape_exts(sh), ms, npoints=10), 'resampling-count', con, lab + ' twice'))
    for k, p in pre.items():
        if k != var and p is not None and D.term(k) is not p:
            r = ri.compare(D.term(k), p, ri.shape_exts(D.shape(k)), ms) if D.term(k) is not None else None
            out.append(ob('only-positions-change', con + '.' + k, 'undecided', lab) if r is None else from_verdict(r, 'only-positions-change', con + '.' + k, lab))
    return out, D.coverage()


class Fixed(ri.Model):
    """draws are replaced by a given number"""

    def arr(self, name, idx):
        if isinstance(name, tuple) and name[0] == 'rng':
            return 0.37
        return super().arr(name, idx)


class FixedPerturbed(dc.Perturbed):
    """the same draws, the state of all runs but one replaced"""

    def arr(self, name, idx):
        if isinstance(name, tuple) and name[0] == 'rng':
            return 0.37
        return super().arr(name, idx)


def separate_runs(t, sh, names, guard, ms):
    """on a given path through the loop, the entries of a run do not depend on the positions and consensus points of others"""
    m = shape_vars(sh)[0][0]
    exts = ri.shape_exts(sh)
    valid = 0
    for s, base in enumerate(ms):
        for run in range(base.dim('M')):
            pm = FixedPerturbed(base.seed, run, names, dims=base.dims, syms=base.syms)
            for env in ri.points(base, ri.free_vars(t) | {m}, exts, 4, s * 31 + run):
                env = dict(env)
                env[m] = run
                try:
                    if not base.ev(guard, env) or not pm.ev(guard, env):
                        continue
                    a, b = base.ev(t, env), pm.ev(t, env)
                except (ri.Skip, ri.Unknown):
                    continue
                valid += 1
                if not ri.close(a, b):
                    return ri.Verdict(False, 'perturbation', 'entry of run %d changes (%.5g vs %.5g) when only other runs change' % (run, a, b), valid)
    return ri.Verdict(True, 'random-interpretation', n=valid) if valid > 2 else ri.Verdict(None, 'no-sample')


def indep_noise(case, path, ddim=1, dep=False):
    """DriftConstrainedCBO: runs whose particles are closer to their consensus than eps_indep are perturbed until they are not; all others stay"""
    positive('si', 'ei')
    D = Dyn(dc.mkcfg(dc.mk('DriftConstrainedCBO', 'none', 'all' if case == 'shrunk' else 'subset', sigma_indep=lambda D: Num(sym('si')), eps_indep=lambda D: Num(sym('ei')))))
    I = D.I
    positive('si', 'ei')
    D.ready()
    V = View(D)
    I.setattr(D.obj, 'indep_noise_step', Py(lambda I, a, k: NONE, 'indep_noise_step'))
    D.step()
    I.heap[D.obj.id].attrs.pop('indep_noise_step', None)
    if case == 'shrunk':
        D.cfg.active = 'subset'
        D.activate()
    else:                                      # the consensus belongs to the active runs
        if case == 'shrunk more':
            T.ARR_PROP['AC2'] = {'ind'}
            b = fresh()
            E = lambda k: mul(T.arr('ACT', [k]), T.arr('AC2', [k]))
            n = T.sum_([(b, M)], E(atom(b)))
            sh = (mkdim(n),)
            b2 = fresh()
            D.set('active_runs_idx', I.arr(sh, T.enum(M, b2, E(atom(b2)), atom(shape_vars(sh)[0][0])), 'i'))
            D.set('num_active_runs', Num(n, 'int'))
    act = (lambda m: T.arr('ACT', [m])) if case != 'shrunk more' else (lambda m: mul(T.arr('ACT', [m]), T.arr('AC2', [m])))
    xsh = D.shape('x')
    D.set('x', D.mkarr('XP', xsh))
    csh = D.shape('consensus')
    D.set('consensus', D.mkarr('CO', csh))
    b = fresh()
    crow = lambda m: m if case == 'shrunk' else T.rank(M, b, T.arr('ACT', [atom(b)]), m)
    pre = {k: D.term(k) for k in ('energy', 'best_energy', 'best_particle', 'num_f_eval', 'consensus')}
    f0, e0 = len(I.findings), len(I.events)
    if dep:
        I.policy = ([True], [])
        D.call('indep_noise_step')
        c0, x0 = I.policy[1], D.term('x')
    I.policy = ([q == '1' for q in path], [])
    D.call('indep_noise_step')
    conds = I.policy[1]
    left = I.policy[0]
    I.policy = None
    lab, con = 'consensus of %s, path %s' % ({'shrunk': 'all runs', 'same': 'the active runs', 'shrunk more': 'more than the active runs'}[case], path), 'DriftConstrainedCBO.indep_noise_step'
    out = [ob('shape', con, 'violated', lab, 'abstract execution', f[2], '%s:%s' % f[1]) for f in I.findings[f0:]]
    t = D.term('x')
    if t is None or left:
        return out + [ob('perturbed-runs', con, 'undecided', lab, '', 'unknown value')], D.coverage()
    d0 = D.dd[0]

    def near(m):
        n, k = fresh(), fresh()
        q = pw(sub(T.arr('XP', [m, atom(n), atom(k)]), T.arr('CO', [crow(m), atom(k)])), 2)
        return T.ind_gt(sub(sym('ei'), div(T.sum_([(n, D.N), (k, d0)], q), mul(D.N, d0))))
    old = T.arr('XP', [V.m, V.n] + V.ks)
    sel = mul(act(V.m), near(V.m)) if '0' in path else ZERO
    guard = ONE
    for q in conds:
        guard = mul(guard, q)
    ms = []
    for s in range(40):
        mo = Fixed(s, dims=[{}, {'A': 1}, {'M': 4, 'A': 3}, {'d': 3}, {'M': 4, 'A': 2}, {'N': 2}][s % 6], syms={'ei': (0.4, 0.9, 1.4, 0.05, 2.0)[s % 5], 'si': (30.0, 0.5)[s % 2]})
        mo.dims.setdefault('N', 3)
        ms.append(mo)
    if dep:
        if x0 is None:
            return [ob('run-independence', con, 'undecided', lab, '', 'unknown value')], D.coverage()
        g0 = ONE
        for q in c0:
            g0 = mul(g0, q)
        t = add(mul(g0, x0), mul(guard, t))
        return [from_verdict(separate_runs(t, xsh, {'XP', 'CO'}, add(g0, guard), ms), 'run-independence', con, 'up to one perturbation')], D.coverage()
    one = T.const(0.37)
    step = mul(mul(sym('si'), T.sqrt(sym('dt'))), one)
    out.append(from_verdict(ri.compare(t, add(old, mul(sel, step)), V.exts, ms, npoints=8, guard=guard), 'perturbed-runs', con, lab))
    for k, p in pre.items():
        if p is not None and D.term(k) is not None and D.term(k) is not p:
            out.append(from_verdict(ri.compare(D.term(k), p, ri.shape_exts(D.shape(k)), ms), 'only-positions-change', con + '.' + k, lab))
    return out, D.coverage()


def indep_tasks():
    return [('independent noise %s %s' % (a, p), indep_noise, (a, p)) for a in ('shrunk', 'same', 'shrunk more') for p in ('1', '01')]


def separate_tasks():
    return [('independent noise of separate runs ' + p, indep_noise, ('shrunk', p, 1, True)) for p in ('01',)]


def c27_user_apply(active):
    """a given apply function gets exactly the selected runs and the arguments of the resampling"""
    D = state('CBO', active)
    I = D.I
    got = []
    r = I.call(I.lookup(RM + 'ensemble_update_resampling'), [Num(sym('th'))], {})
    R_ = mkres(D, [r], apply=Py(lambda I, a, k: (got.append((a, k)), NONE)[1], 'apply'), sigma_indep=Num(sym('si')))
    x0 = D.term('x')
    I.call(R_, [D.obj], {})
    lab = 'active=%s given apply' % active
    out = [ob('apply-called-once', 'resampling', 'held' if len(got) == 1 else 'violated', lab, 'effects', '%d calls' % len(got))]
    if got:
        a, k = got[0]
        idx = a[1] if len(a) > 1 else k.get('idx')
        ok = a and a[0] == D.obj
        out.append(ob('apply-arguments', 'resampling', 'held' if ok else 'violated', lab, 'effects'))
        out.append(members(D, idx, lambda m: mul(View(D).act(m), below('UD', 'th')(m)), 'selected-runs', 'resampling', lab))
    out.append(ob('resampled-position', 'resampling', 'held' if D.term('x') is x0 else 'violated', lab, 'effects'))
    return out, D.coverage()


def members(D, idx, ref, rule, con, lab, ms=None):
    """the index array holds exactly the runs with ref(m) = 1"""
    if not isinstance(idx, Arr) or D.I.read(idx) is None:
        return ob(rule, con, 'undecided', lab)
    t, sh = D.I.read(idx), D.I.shape(idx)
    if len(sh) != 1:
        return ob(rule, con, 'violated', lab, 'shape', 'rank %d' % len(sh))
    mv = fresh()
    vs = shape_vars(sh)[0]
    if vs:
        i = fresh()
        cnt = T.sum_([(i, extent(sh[0]))], T.ind_eq(sub(T.subst(t, {vs[0]: atom(i)}), atom(mv))))
    else:
        cnt = T.ind_eq(sub(t, atom(mv)))
    return from_verdict(ri.compare(cnt, ref(atom(mv)), {mv: M}, ms or models(), npoints=10), rule, con, lab)


def c27_ensemble():
    D = state('CBO', 'subset')
    I = D.I
    r = I.call(I.lookup(RM + 'ensemble_update_resampling'), [Num(sym('th'))], {})
    idx = I.call(r, [D.obj], {})
    return [members(D, idx, below('UD', 'th'), 'criterion', 'ensemble_update_resampling', '')], D.coverage()


def c27_loss(first):
    """best energy not improved for wait_thresh calls"""
    D = state('CBO', 'subset')
    I = D.I
    T.INT_SYMS.add('wth')
    positive('wth')
    r = I.call(I.lookup(RM + 'loss_update_resampling'), [], {'wait_thresh': Num(sym('wth'), 'int')})
    con = 'loss_update_resampling'
    lab = 'first call' if first else 'any call'
    W = lambda m: T.arr('W', [m])
    OB = lambda m: T.arr('OB', [m])
    if not first:
        I.call(r, [D.obj], {})
        rec = I.heap[r.id]
        at = dict(rec.attrs)
        at['wait'] = D.mkarr('W', (mkdim(M),), 'i', {'int', 'nonneg'})
        at['best_energy'] = D.mkarr('OB', (mkdim(M),))
        I.heap[r.id] = ObjRec(rec.cls, at)
    idx = I.call(r, [D.obj], {})
    BE = lambda m: T.arr('BE', [m])
    ms = []
    for s in range(12):
        w = (1, 2, 3)[s % 3]

        def wv(model, ix, w=w):
            return int(ri.h01(model.seed, 'W', ix) * w)          # invariant 0 <= wait < wait_thresh
        mo = ri.Model(s, syms={'wth': w}, dims=[{}, {'M': 4}, {'A': 1}][s % 3])
        mo.arrs['W'] = wv
        if s >= 9:
            mo.tol = 0.4
        ms.append(mo)
    if first:
        imp = lambda m: ONE
        w1 = lambda m: ZERO
        nb = BE
    else:
        imp = lambda m: T.ind_gt(sub(OB(m), BE(m)))
        w1 = lambda m: mul(sub(ONE, imp(m)), add(W(m), ONE))
        nb = lambda m: T.minimum(OB(m), BE(m))
    fire = lambda m: T.not_(T.ind_gt(sub(sym('wth'), w1(m))))
    out = [members(D, idx, fire, 'criterion', con, lab, ms)]
    rec = I.heap[r.id].attrs
    for k, ref, rule in (('wait', lambda m: mul(sub(ONE, fire(m)), w1(m)), 'waiting-counter'), ('best_energy', nb, 'best-energy-tracked')):
        a = rec.get(k)
        if not isinstance(a, Arr) or I.read(a) is None:
            out.append(ob(rule, con, 'undecided', lab))
            continue
        t, sh = I.read(a), I.shape(a)
        out.append(from_verdict(ri.compare(t, ref(atom(shape_vars(sh)[0][0])), ri.shape_exts(sh), ms, npoints=10), rule, con, lab))
    al = isinstance(rec.get('best_energy'), Arr) and I.root_buf(rec['best_energy'].id) == I.root_buf(D.get('best_energy').id)
    out.append(ob('no-alias', con, 'violated' if al else 'held', lab, 'points-to'))
    return out, D.coverage()


def c27_stagnation(active, patience, calls, ddim=1):
    """largest consensus movement over the last `patience` calls below the threshold; only active runs, never at the first call"""
    D = state('CBO', active, ddim)
    I = D.I
    positive('th')
    r = I.call(I.lookup(RM + 'consensus_stagnation'), [], {'patience': Num(patience, 'int'), 'update_thresh': Num(sym('th'))})
    sh = D.shape('consensus')
    V = View(D)
    con = 'consensus_stagnation'
    out = []
    ms = []
    for s in range(8):
        dims = [{}, {'A': 1}, {'M': 4, 'A': 3}, {'d': 3}][s % 4]
        ms.append(ri.Model(s, dims=dims, syms={'th': (0.3, 0.8, 1.5, 1.0)[s % 4]}))

    def move(t):
        def f(m):
            i = V.row(m)

            def sq(ks):
                p, q = (T.arr('C%d' % j, [i, ZERO] + ks) for j in (t, t - 1))
                return pw(sub(p, q), 2)
            vs = [fresh() for _ in D.dd]
            return T.sqrt(T.sum_(list(zip(vs, D.dd)), sq([atom(v) for v in vs])))
        return f
    for t in range(calls):
        nm = 'C%d' % t
        D.set('consensus', I.arr(sh, T.arr(nm, consensus_idx(sh))))
        idx = I.call(r, [D.obj], {})
        lab = 'active=%s patience=%d call %d%s' % (active, patience, t + 1, '' if ddim == 1 else ' ddim=%d' % ddim)
        if t == 0:
            ref = lambda m: ZERO
        else:
            last = list(range(max(1, t - patience + 1), t + 1))

            def ref(m, last=last):
                g = V.act(m)
                for j in last:
                    g = mul(g, T.ind_gt(sub(sym('th'), move(j)(m))))
                return g
        out.append(members(D, idx, ref, 'criterion', con, lab, ms))
    return out, D.coverage()


def consensus_idx(sh):
    """index terms of a consensus entry (run, 0, coordinates)"""
    vs = shape_vars(sh)
    return [atom(vs[0][0])] + [ZERO if not q else atom(q[0]) for q in vs[1:]]


def unphi(v):
    """the array alternative of a conditionally assigned attribute"""
    while isinstance(v, Phi):
        v = v.a if isinstance(v.a, Arr) or isinstance(v.a, Phi) and not isinstance(v.b, Arr) else v.b
    return v


def c27_best(active, first):
    """best consensus tracking"""
    D = state('CBO', active)
    I = D.I
    V = View(D)
    rs = I.call(I.lookup(RM + 'ensemble_update_resampling'), [Num(sym('th'))], {})
    R_ = mkres(D, [rs], track_best_consensus=True)
    con = 'resampling'
    lab = 'active=%s %s' % (active, 'first' if first else 'later')
    sh = D.shape('consensus')
    ms = models(30)
    if not first:
        I.call(R_, [D.obj], {})
        rec = I.heap[R_.id]
        at = dict(rec.attrs)
        at = {k: unphi(v) for k, v in at.items()}
        if not isinstance(at.get('best_consensus'), Arr):
            return [ob('best-consensus', con, 'undecided', lab)], D.coverage()
        at['best_consensus'] = D.mkarr('BC', I.shape(at['best_consensus']))
        at['best_consensus_energy'] = D.mkarr('BCE', I.shape(at['best_consensus_energy']))
        at['num_resampling'] = D.mkarr('NR', (mkdim(M),))
        I.heap[R_.id] = ObjRec(rec.cls, at)
        D.set('num_f_eval', D.mkarr('NE', (mkdim(M),), 'i', {'int', 'nonneg'}))
    D.set('consensus', I.arr(sh, T.arr('CO', consensus_idx(sh))))
    e0 = len(I.events)
    f0 = len(I.findings)
    I.call(R_, [D.obj], {})
    out = [ob('shape', con, 'violated', lab, 'abstract execution', f[2], '%s:%s' % f[1]) for f in I.findings[f0:]]
    sel = lambda m: mul(V.act(m), below('UD', 'th')(m))
    t = D.term('num_f_eval')
    esh = D.shape('num_f_eval')
    m = atom(shape_vars(esh)[0][0])
    out.append(from_verdict(ri.compare(t, add(T.arr('NE', [m]), sel(m)), ri.shape_exts(esh), ms, npoints=10), 'evaluations-counted', con, lab) if t is not None else
               ob('evaluations-counted', con, 'undecided', lab))
    at = I.heap[R_.id].attrs
    bc, be = unphi(at.get('best_consensus')), unphi(at.get('best_consensus_energy'))
    if not (isinstance(bc, Arr) and isinstance(be, Arr)) or I.read(bc) is None or I.read(be) is None:
        return out + [ob('best-consensus', con, 'undecided', lab)], D.coverage()
    kv = fresh()
    cen = lambda m: T.app('F', [(kv, D.dd[0])], (T.arr('CO', [V.row(m), ZERO, atom(kv)]),), ())
    imp = (lambda m: sel(m)) if first else (lambda m: mul(sel(m), T.ind_gt(sub(T.arr('BCE', bidx(I.shape(be), m)), cen(m)))))
    s1 = I.shape(be)
    m = atom(shape_vars(s1)[0][0])
    guard = sel(m) if first else None
    old = ZERO if first else T.arr('BCE', bidx(s1, m))
    v = ri.compare(I.read(be), add(mul(imp(m), cen(m)), mul(sub(ONE, imp(m)), old)), ri.shape_exts(s1), ms, npoints=10, guard=guard)
    out.append(from_verdict(v, 'best-consensus-energy', con, lab))
    s2 = I.shape(bc)
    vs = shape_vars(s2)
    m = atom(vs[0][0])
    k = atom(vs[-1][0])
    old = ZERO if first else T.arr('BC', [m, k])
    v = ri.compare(I.read(bc), add(mul(imp(m), T.arr('CO', [V.row(m), ZERO, k])), mul(sub(ONE, imp(m)), old)), ri.shape_exts(s2), ms, npoints=10, guard=sel(m) if first else None)
    out.append(from_verdict(v, 'best-consensus', con, lab))
    return out, D.coverage()


def bidx(sh, m):
    return [m]


def c27_tasks(tier):
    out = []
    q = tier == 'quick'
    for a in ('all', 'subset'):
        out.append(('apply ' + a, c27_apply, ('CBO', a, False)))
        out.append(('apply two ' + a, c27_apply, ('CBO', a, True)))
        out.append(('user apply ' + a, c27_user_apply, (a,)))
        for f in (True, False):
            out.append(('best %s %s' % (a, f), c27_best, (a, f)))
        for p in (1, 2) if q else (1, 2, 3):
            out.append(('stagnation %s %d' % (a, p), c27_stagnation, (a, p, p + 2)))
        if not q:
            out.append(('stagnation ddim ' + a, c27_stagnation, (a, 2, 3, 2)))
            for cl in ('CBOMemory', 'PSO', 'MirrorCBO', 'PolarCBO', 'AdamCBO'):
                out.append(('apply %s %s' % (cl, a), c27_apply, (cl, a, False)))
                out.append(('apply two %s %s' % (cl, a), c27_apply, (cl, a, True)))
            out.append(('apply ddim ' + a, c27_apply, ('CBO', a, False, 'x', 2)))
        out.append(('apply y ' + a, c27_apply, ('MirrorCBO', a, False, 'y')))
    out.append(('ensemble', c27_ensemble, ()))
    out += [('loss %s' % f, c27_loss, (f,)) for f in (True, False)]
    return out
