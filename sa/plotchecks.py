"""C25 plotting: what is handed to the axes, for which run, dimensions and iteration; the dynamic stays unchanged."""
from . import terms as T, ri
from .terms import ZERO, ONE, atom, add, sub, mul, div, neg
from .fx import Fx, sym, c, axis_index, opaque_field
from .runner import ob, from_verdict, ROOT
from .interp import Arr, Num, NONE, Obj, ExtObj, Lst, Dct, Str, Tup, DictRec, BufRec, extent, shape_vars, mkdim
from .config import Dyn, M, N, to_v
from .spec import models_for
from . import dynchecks as dc

PL = 'cbx.plotting:'


def calls(I, e0, *names):
    return [e for e in I.events[e0:] if e.kind == 'extcall' and e.data['name'] in names]


def arg(e, i, name):
    a = e.data['args']
    return a[i] if i < len(a) else e.data['kw'].get(name)


def shape_of(I, v):
    return I.shape(v) if isinstance(v, Arr) else None


def flat_same(D, v, ref, rule, con, lab, n, site=''):
    """v: values of n particles (a vector, or with additional axes of length one) equal to ref(k)"""
    I = D.I
    if not isinstance(v, Arr):
        return ob(rule, con, 'undecided', lab, '', repr(v))
    sh = I.shape(v)
    ax = [q for q in sh if not (len(q) == 1 and T.equal(q[0], ONE)) and len(q)]
    if len(ax) != 1 or not T.equal(extent(ax[0]), n):
        if any(not T.equal(extent(a), n) for a in ax):
            return ob(rule, con, 'violated', lab, 'shape', 'values of shape (%s)' % ', '.join(T.show(extent(q)) for q in sh), site)
        return ob(rule, con, 'undecided', lab, '', 'shape')
    t = I.read(v)
    if t is None:
        return ob(rule, con, 'undecided', lab, '', 'unknown value')
    vs = [x for x, q in zip(shape_vars(sh), sh) if q is ax[0]][0]
    return from_verdict(ri.compare(t, ref(axis_index(vs, ax[0])), ri.shape_exts(sh), models_for(D), npoints=10), rule, con, lab, site)


def pair_same(D, v, refs, rule, con, lab, n):
    """v: array (n, 2) with columns refs[0](k), refs[1](k)"""
    I = D.I
    if not isinstance(v, Arr):
        return ob(rule, con, 'undecided', lab, '', repr(v))
    sh = I.shape(v)
    if len(sh) != 2 or not T.equal(extent(sh[0]), n) or not T.equal(extent(sh[1]), c(2)):
        return ob(rule, con, 'violated', lab, 'shape', 'offsets of shape (%s)' % ', '.join(T.show(extent(q)) for q in sh))
    t = I.read(v)
    if t is None:
        return ob(rule, con, 'undecided', lab, '', 'unknown value')
    vs = shape_vars(sh)
    k = axis_index(vs[0], sh[0])
    for q in (0, 1):
        tq = T.subst(t, {vs[1][0]: c(q)}) if vs[1] else t
        vd = ri.compare(tq, refs[q](k), ri.shape_exts(sh), models_for(D), npoints=10)
        if vd.eq is not True:
            return from_verdict(vd, rule, con, lab)
    return from_verdict(vd, rule, con, lab)


def dynamic(d1, batch='none', hist=3, cls='CBO'):
    """dynamic with arbitrary positions, former positions, consensus, drift and histories of these"""
    D = Dyn(dc.mkcfg(dc.mk(cls, batch, 'all', track_args={'names': ['x', 'consensus', 'drift']})))
    D.ready()
    D.step()
    I = D.I
    if d1:
        shp = (mkdim(M), mkdim(N), mkdim(ONE))
        D.dd = [ONE]
    else:
        shp = D.xshape
    one = (mkdim(M), mkdim(ONE), shp[2])
    D.set('d', Tup([Num(extent(shp[2]), 'int')]))
    nm = {}

    def new(name, s):
        nm[name] = s
        return D.mkarr(name, s)
    for a, s in (('x', shp), ('x_old', shp), ('consensus', one), ('drift', shp)):
        D.set(a, new('P' + a, s))
    pidx = D.get('particle_idx')
    h = I.heap[D.get('history').id]
    I.heap[D.get('history').id] = DictRec({('s', 'x'): to_v(I, [new('HX%d' % i, shp) for i in range(hist + 1)]),
                                           ('s', 'consensus'): to_v(I, [new('HC%d' % i, one) for i in range(hist)]),
                                           ('s', 'drift'): to_v(I, [new('HD%d' % i, shp) for i in range(hist)]),
                                           ('s', 'particle_idx'): to_v(I, [pidx for i in range(hist)])})
    D.names_ = nm
    return D


def frame(D, fn):
    """attributes and buffers of the dynamic before/after fn"""
    I = D.I
    a0, h0 = dict(D.attrs()), dict(I.heap)
    r = fn()
    a1 = D.attrs()
    bad = [k for k in a0 if a1.get(k) is not a0[k] and k not in ('f',)]
    bad += [k for k in a1 if k not in a0]
    for k, v in a0.items():
        if isinstance(v, (Arr, Lst, Dct)) and h0.get(v.id) is not I.heap.get(v.id):
            bad.append(k)
    hid = D.get('history').id
    for k, v in I.heap[hid].d.items():
        if h0.get(v.id) is not I.heap.get(v.id):
            bad.append('history ' + str(k))
        else:
            bad += ['history %s[%d]' % (k[1], i) for i, e in enumerate(I.heap[v.id].items) if isinstance(e, Arr) and h0.get(e.id) is not I.heap.get(e.id)]
    return r, bad


def entry(D, name, *idx):
    """array entry; axes of length one carry no index"""
    return T.arr(name, [T.P(i) for i, q in zip(idx, D.names_[name]) if len(q)])


def mkref(D, r):
    def ref(name, dim, neg_=False):
        def f(k):
            t = entry(D, name, r, k, dim)
            return neg(t) if neg_ else t
        return f
    return ref


def fval(D, point):
    from .spec import Fapp
    if T.equal(D.dd[0], ONE):
        return T.app('F', [], (T.P(point(ZERO)),), ())
    return Fapp(D, point)


def setup(d1, dims, kind, hist=True, **kw):
    D = dynamic(d1)
    I = D.I
    r = sym('run')
    T.INT_SYMS.add('run')
    T.SYM_NONNEG.add('run')
    from .config import fact
    fact(sub(M, add(r, ONE)), '>=')
    if not d1:
        fact(sub(D.dd[0], c(3)), '>=')
        fact(sub(D.dd[0], ONE), '+')
    ax = ExtObj('opaque', name='ax')
    args = {'num_run': Num(r, 'int'), 'ax': ax, 'plot_consensus': True, 'plot_drift': not d1}
    if dims is not None:
        args['dims'] = list(dims)
    args.update(kw)
    e0 = len(I.events)
    P, bad = frame(D, lambda: I.call(I.lookup(PL + kind), [D.obj], {k: to_v(I, v) for k, v in args.items()}))
    return D, P, r, e0, bad


def lab(d1, dims, x=''):
    return '%s dims=%s %s' % ('d=1' if d1 else 'd>=3', dims, x)


def ax_obs(D, e0, xn, cn, dn, r, d1, dims, L, energy, init, want_drift=True):
    """what reaches the axes: particles, consensus, drift"""
    I = D.I
    out = []
    ref = mkref(D, r)
    p = dims or [0, 1]
    q0 = ZERO if d1 else c(p[0])
    yref = None
    if d1:
        yref = (lambda k: fval(D, lambda *_: entry(D, xn, r, k, ZERO))) if energy else (lambda k: ZERO)
    else:
        yref = ref(xn, c(p[1]))
    cy = (lambda k: ZERO) if d1 else ref(cn, c(p[1]))
    if init:
        sc = calls(I, e0, 'ax.scatter')
        if len(sc) != 2:
            return [ob('plots-particles', 'init_x', 'violated', L, 'abstract execution', '%d scatter calls' % len(sc))]
        out.append(flat_same(D, arg(sc[0], 0, 'x'), ref(xn, q0), 'plots-particles', 'init_x', L, N))
        out.append(flat_same(D, arg(sc[0], 1, 'y'), yref, 'plots-particles', 'init_x', L, N))
        out.append(flat_same1(D, arg(sc[1], 0, 'x'), ref(cn, q0), 'plots-consensus', 'init_consensus', L))
        out.append(flat_same1(D, arg(sc[1], 1, 'y'), cy, 'plots-consensus', 'init_consensus', L))
        qv = calls(I, e0, 'ax.quiver')
        if want_drift:
            if len(qv) != 1:
                return out + [ob('plots-drift', 'init_drift', 'violated', L, 'abstract execution', '%d quiver calls' % len(qv))]
            for i, (nme, rf) in enumerate((('X', ref(xn, c(p[0]))), ('Y', ref(xn, c(p[1]))), ('U', ref(dn, c(p[0]), True)), ('V', ref(dn, c(p[1]), True)))):
                out.append(flat_same(D, arg(qv[0], i, nme), rf, 'plots-drift', 'init_drift', L, N))
        return out
    so = calls(I, e0, 'ax.scatter().set_offsets')
    if len(so) != 2:
        return [ob('plots-particles', 'plot_particles', 'violated', L, 'abstract execution', '%d set_offsets calls' % len(so))]
    out.append(pair_same(D, arg(so[0], 0, 'offsets'), (ref(xn, q0), yref), 'plots-particles', 'plot_particles', L, N))
    out.append(pair_same(D, arg(so[1], 0, 'offsets'), (lambda k: entry(D, cn, r, ZERO, q0), (lambda k: ZERO) if d1 else lambda k: entry(D, cn, r, ZERO, c(p[1]))),
                         'plots-consensus', 'plot_c', L, ONE))
    if want_drift:
        qo, qu = calls(I, e0, 'ax.quiver().set_offsets'), calls(I, e0, 'ax.quiver().set_UVC')
        if len(qo) != 1 or len(qu) != 1:
            return out + [ob('plots-drift', 'plot_d', 'violated', L, 'abstract execution', '%d/%d calls' % (len(qo), len(qu)))]
        out.append(pair_same(D, arg(qo[0], 0, 'offsets'), (ref(xn, c(p[0])), ref(xn, c(p[1]))), 'plots-drift', 'plot_d', L, N))
        for i, nme in ((0, 'U'), (1, 'V')):
            out.append(flat_same(D, arg(qu[0], i, nme), ref(dn, c(p[i]), True), 'plots-drift', 'plot_d', L, N))
    return out


def flat_same1(D, v, rf, rule, con, L):
    I = D.I
    if not isinstance(v, Arr):
        return ob(rule, con, 'undecided', L, '', repr(v))
    sh = I.shape(v)
    if any(not T.equal(extent(q), ONE) for q in sh):
        return ob(rule, con, 'violated', L, 'shape', 'values of shape (%s)' % ', '.join(T.show(extent(q)) for q in sh))
    t = I.read(v)
    if t is None:
        return ob(rule, con, 'undecided', L, '', 'unknown value')
    t = T.subst(t, {x: ZERO for vs in shape_vars(sh) for x in vs})
    return from_verdict(ri.compare(t, rf(ZERO), {}, models_for(D), npoints=10), rule, con, L)


def fr(bad, con, L):
    return ob('dynamic-unchanged', con, 'violated' if bad else 'held', L, 'effects', ', '.join(bad[:6]))


def c25_current(d1, dims, energy):
    D, P, r, e0, bad = setup(d1, dims, 'PlotDynamic', eval_energy_1d=energy)
    I = D.I
    L = lab(d1, dims, 'energy=%s' % energy)
    out = [fr(bad, 'PlotDynamic', L)]
    e1 = len(I.events)
    _, bad = frame(D, lambda: I.call(I.getattr(P, 'init_plot'), [], {}))
    out.append(fr(bad, 'init_plot', L))
    out += ax_obs(D, e1, 'Px', 'Pconsensus', 'Pdrift', r, d1, dims, L, energy, True, not d1)
    e1 = len(I.events)
    _, bad = frame(D, lambda: I.call(I.getattr(P, 'update'), [], {}))
    out.append(fr(bad, 'update', L))
    out += ax_obs(D, e1, 'Px_old', 'Pconsensus', 'Pdrift', r, d1, dims, L, energy, False, not d1)
    return out, D.coverage()


def c25_history(d1, dims, given):
    kw = {}
    D, P, r, e0, bad = setup(d1, dims, 'PlotDynamicHistory', **kw)
    I = D.I
    L = lab(d1, dims, 'history')
    out = [fr(bad, 'PlotDynamicHistory', L)]
    out += ax_obs(D, e0, 'HX0', 'HC0', 'HD0', r, d1, dims, L, True, True, not d1)
    for i in (1, 2):
        e1 = len(I.events)
        _, bad = frame(D, lambda: I.call(I.getattr(P, 'plot_at_ind'), [Num(i, 'int')], {}))
        out.append(fr(bad, 'plot_at_ind', L))
        out += ax_obs(D, e1, 'HX%d' % i, 'HC%d' % i, 'HD%d' % i, r, d1, dims, L + ' at %d' % i, True, False, not d1)
    # run_plots: frames 0, freq, ... with matching titles
    for freq in (1, 2):
        log = []
        from .interp import Py
        I.setattr(P, 'plot_at_ind', Py(lambda I, a, k: (log.append(('plot', a[0].p)), NONE)[1], 'plot_at_ind'))
        e1 = len(I.events)
        I.call(I.getattr(P, 'run_plots'), [], {'freq': Num(freq, 'int')})
        got = [T.show(p) for _, p in log]
        want = [str(i) for i in range(3) if i % freq == 0]
        out.append(ob('frames', 'run_plots', 'held' if got == want else 'violated', L + ' freq=%d' % freq, 'abstract execution', 'frames ' + ' '.join(got)))
        tt = [e.data['args'][0].s for e in calls(I, e1, 'ax.set_title') if isinstance(e.data['args'][0], Str)]
        out.append(ob('frames', 'decorate_at_ind', 'held' if [t.split()[-1] for t in tt] == want else 'violated', L + ' freq=%d' % freq, 'abstract execution', ' | '.join(tt)))
    return out, D.coverage()


def c25_missing():
    """without recorded positions: RuntimeError; without consensus or drift records these plots are dropped"""
    from .interp import Raised
    out = []
    for names in ([], ['x'], ['x', 'consensus']):
        D = dynamic(False)
        I = D.I
        hid = D.get('history').id
        I.heap[hid] = DictRec({k: v for k, v in I.heap[hid].d.items() if k[1] in names})
        ax = ExtObj('opaque', name='ax')
        e0 = len(I.events)
        try:
            I.call(I.lookup(PL + 'PlotDynamicHistory'), [D.obj], {k: to_v(I, v) for k, v in {'ax': ax, 'plot_consensus': True, 'plot_drift': True}.items()})
            ok = 'x' in names
        except Raised as e:
            ok = 'x' not in names and e.exc == 'RuntimeError'
        if ok and names:
            ok = len(calls(I, e0, 'ax.scatter')) == len(names) and not calls(I, e0, 'ax.quiver')
        out.append(ob('missing-history', 'PlotDynamicHistory', 'held' if ok else 'violated', str(names), 'abstract execution'))
    return out, D.coverage()


def c25_contour(dims, bounds, d):
    fx = Fx()
    I = fx.I
    F = opaque_field('F', 1)
    ax = ExtObj('opaque', name='ax')
    n = 4
    kw = {'ax': ax, 'num_pts': n, 'd': d}
    a, b = sym('xa'), sym('xb')
    lo, hi, ylo, yhi = c(-1), ONE, c(-1), ONE
    if bounds:
        lo, hi = a, b
        ylo, yhi = a, b
        kw.update(x_min=Num(a), x_max=Num(b))
    if bounds == 2:
        ylo, yhi = sym('ya'), sym('yb')
        kw.update(y_min=Num(ylo), y_max=Num(yhi))
    if dims is not None:
        kw['dims'] = list(dims)
    p = dims or [0, 1]
    fx.call(PL + 'contour_2D', F, **kw)
    L = 'contour dims=%s bounds=%s d=%d' % (dims, bounds, d)
    e = calls(I, 0, 'ax.contourf')
    if len(e) != 1:
        return [ob('contour', 'contour_2D', 'violated', L, 'abstract execution', '%d contourf calls' % len(e))], fx.coverage()
    X, Y, Z = (arg(e[0], i, w) for i, w in enumerate('XYZ'))

    def gx(j):
        return add(lo, mul(div(sub(hi, lo), c(n - 1)), j))

    def gy(i):
        return add(ylo, mul(div(sub(yhi, ylo), c(n - 1)), i))
    out = [fx.same(X, (n, n), lambda i, j: gx(j), 'contour', 'contour_2D', L + ' X'), fx.same(Y, (n, n), lambda i, j: gy(i), 'contour', 'contour_2D', L + ' Y')]

    def refz(i, j):
        def coord(k):
            k = T.P(k)
            return add(mul(T.ind_eq(sub(k, c(p[0]))), gx(j)), mul(T.ind_eq(sub(k, c(p[1]))), gy(i)))
        return field('F', coord, c(d))
    out.append(fx.same(Z, (n, n), refz, 'contour', 'contour_2D', L + ' Z'))
    return out, fx.coverage()


def field(name, coord, d):
    """value of the opaque function name at the point with coordinates coord(k), k < d"""
    w = T.fresh()
    return T.app(name, [(w, d)], (coord(atom(w)),), ())


def c25_line(bounds):
    fx = Fx()
    I = fx.I
    F = opaque_field('F', 1)
    ax = ExtObj('opaque', name='ax')
    kw = {'ax': ax, 'num_pts': 5}
    lo, hi = c(-1), ONE
    if bounds:
        lo, hi = sym('xa'), sym('xb')
        kw.update(x_min=Num(lo), x_max=Num(hi))
    fx.call(PL + 'plot_1D', F, **kw)
    L = 'line bounds=%s' % bounds
    e = calls(I, 0, 'ax.plot')
    if len(e) != 1:
        return [ob('line', 'plot_1D', 'violated', L, 'abstract execution', '%d plot calls' % len(e))], fx.coverage()

    def g(i):
        return add(lo, mul(div(sub(hi, lo), c(4)), i))
    return [fx.same(arg(e[0], 0, 'x'), (5,), g, 'line', 'plot_1D', L), fx.same(arg(e[0], 1, 'y'), (5,), lambda i: T.app('F', [], (g(i),), ()), 'line', 'plot_1D', L)], fx.coverage()


def c25_objective(d1, dims):
    """plot_objective hands the objective, dimension and dims of the dynamic to the contour or line plot"""
    D, P, r, e0, bad = setup(d1, dims, 'PlotDynamic', objective_args={'num_pts': 3, 'x_min': -2, 'x_max': 2})
    I = D.I
    L = lab(d1, dims, 'objective')
    e1 = len(I.events)
    I.call(I.getattr(P, 'plot_objective'), [], {})
    p = dims or [0, 1]
    out = []
    lim = [(e.data['name'], [q.p for q in I.heap[e.data['args'][0].id].items]) for e in calls(I, e0, 'ax.set_xlim', 'ax.set_ylim')]
    ok = len(lim) == 2 and all(T.equal(a, c(-2)) and T.equal(b, c(2)) for _, (a, b) in lim)
    out.append(ob('objective', 'limits', 'held' if ok else 'violated', L, 'abstract execution'))

    def g(i):
        return sub(mul(c(2), i), c(2))
    e = calls(I, e1, 'ax.plot' if d1 else 'ax.contourf')
    if len(e) != 1:
        return out + [ob('objective', 'plot_objective', 'violated', L, 'abstract execution', '%d calls' % len(e))], D.coverage()
    z = arg(e[0], 1, 'y') if d1 else arg(e[0], 2, 'Z')
    if not isinstance(z, Arr) or I.read(z) is None:
        return out + [ob('objective', 'plot_objective', 'undecided', L)], D.coverage()
    idx = [axis_index(vs, q) for vs, q in zip(shape_vars(I.shape(z)), I.shape(z))]
    if len(idx) != (1 if d1 else 2):
        return out + [ob('objective', 'plot_objective', 'violated', L, 'shape')], D.coverage()
    if d1:
        rf = fval(D, lambda *k: g(idx[0]))
    else:
        rf = fval(D, lambda k, *_: add(mul(T.ind_eq(sub(T.P(k), c(p[0]))), g(idx[1])), mul(T.ind_eq(sub(T.P(k), c(p[1]))), g(idx[0]))))
    out.append(from_verdict(ri.compare(I.read(z), rf, ri.shape_exts(I.shape(z)), models_for(D), npoints=12), 'objective', 'plot_objective', L))
    return out, D.coverage()


def c25_tasks(tier):
    out = []
    dl = (None, [2, 0]) if tier == 'quick' else (None, [2, 0], [1, 2], [0, 2])
    for dims in dl:
        out.append(('current %s' % dims, c25_current, (False, dims, True)))
        out.append(('history %s' % dims, c25_history, (False, dims, False)))
        out.append(('objective %s' % dims, c25_objective, (False, dims)))
        for b in (0, 1, 2):
            for d in (2, 3) if dims is None else (3, 4):
                out.append(('contour %s %s %d' % (dims, b, d), c25_contour, (dims, b, d)))
    for en in (True, False):
        out.append(('current 1d %s' % en, c25_current, (True, None, en)))
    out.append(('history 1d', c25_history, (True, None, False)))
    out.append(('objective 1d', c25_objective, (True, None)))
    out.append(('missing', c25_missing, ()))
    for b in (0, 1):
        out.append(('line %d' % b, c25_line, (b,)))
    return out
