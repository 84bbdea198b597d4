"""C20 schedulers, C29 regularised objectives."""
import math
from . import terms as T, ri
from .terms import ZERO, ONE, atom, add, sub, mul, div, neg, fresh
from .fx import Fx, sym, c, pw, sumv, opaque_field, Scaled, axis_index
from .runner import ob, from_verdict, ROOT
from .interp import Arr, Num, NONE, Py, Obj, Raised, extent, shape_vars, Tup, Lst, ObjRec, UNDEF
from .config import Cfg, Dyn, M, N
from .libchecks import X, Y, d, sqrt, ab, exp, nrm2, Aq, bq, aq, par, type_name
from . import dynchecks as dc

SM = 'cbx.scheduler:'


def dyn_state(cls='CBO', **kw):
    """a dynamic in an arbitrary state (every attribute a step changes generalised)"""
    dd = dc.mk(cls, 'none', 'subset', **kw)
    D = Dyn(dc.mkcfg(dd))
    D.ready()
    return D, dd


def changed_attrs(D, a0, h0):
    """attributes of the dynamic rebound, or whose storage was written, since (a0, h0)"""
    I = D.I
    out = []
    a1 = D.attrs()
    for k in set(a0) | set(a1):
        v0, v1 = a0.get(k, UNDEF), a1.get(k, UNDEF)
        if v0 is v1 or (isinstance(v0, (Arr, Num)) and v0 == v1):
            if isinstance(v1, Arr) and I.heap.get(I.root_buf(v1.id)) is not h0.get(I.root_buf(v1.id)):
                out.append(k)
            continue
        if isinstance(v0, Num) and isinstance(v1, Num) and v0.p is v1.p:
            continue
        out.append(k)
    return out


def attr_is(D, name, ref, shape, rule, construct, config):
    v = D.get(name)
    t = D.term(name)
    if t is None:
        return ob(rule, construct, 'undecided', config, '', 'unknown value')
    if isinstance(v, Arr):
        sh = D.I.shape(v)
        if shape is not None and (len(sh) != len(shape) or any(not T.equal(extent(q), e) for q, e in zip(sh, shape))):
            return ob(rule, construct, 'violated', config, 'shape', 'shape (%s)' % ', '.join(T.show(extent(q)) for q in sh))
        idx = [axis_index(vs, q) for vs, q in zip(shape_vars(sh), sh)]
        vd = ri.compare(t, T.P(ref(*idx)), ri.shape_exts(sh), [ri.Model(s) for s in range(6)], npoints=8)
    else:
        vd = ri.compare(t, T.P(ref()), {}, [ri.Model(s) for s in range(8)])
    return from_verdict(vd, rule, construct, config)


def c20_multiply(name, cls='CBO', two=False):
    """value' = min(maximum, factor * value), nothing else changes, the old array is not modified"""
    D, dd = dyn_state(cls)
    I = D.I
    for s in ('fac', 'mx', 'fac2', 'mx2'):
        T.SYM_POS.add(s)
        T.SYM_NONNEG.add(s)
    out = []
    def mult(n, f, m):
        return I.call(I.lookup(SM + 'multiply'), [], {'name': __import__('sa.interp', fromlist=['Str']).Str(n), 'factor': Num(sym(f)), 'maximum': Num(sym(m))})
    p = mult(name, 'fac', 'mx')
    ps = [p]
    if two:
        ps.append(mult(name, 'fac2', 'mx2'))
    s = I.call(I.lookup(SM + 'scheduler'), [I.mklist(ps)], {})
    a0, h0 = dict(D.attrs()), dict(I.heap)
    old = D.get(name)
    t0 = D.term(name)
    I.call(I.getattr(s, 'update'), [D.obj], {})
    cfg = '%s %s%s' % (cls, name, ' twice' if two else '')
    def upd(t):
        r = T.minimum(sym('mx'), mul(sym('fac'), t))
        return T.minimum(sym('mx2'), mul(sym('fac2'), r)) if two else r
    if isinstance(old, Arr):
        sh = I.shape(old)
        vs = shape_vars(sh)
        out.append(attr_is(D, name, lambda *i: T.subst(upd(t0), {v[0]: k for v, k in zip(vs, i) if v}), [extent(q) for q in sh], 'multiply-rule', 'multiply.update', cfg))
    else:
        out.append(attr_is(D, name, lambda: upd(t0), None, 'multiply-rule', 'multiply.update', cfg))
    ch = [k for k in changed_attrs(D, a0, h0) if k != name]
    out.append(ob('only-its-parameter', 'multiply.update', 'violated' if ch else 'held', cfg, 'effects', 'also changes ' + ', '.join(sorted(ch)) if ch else ''))
    return out, D.coverage()


def c20_missing_default():
    """default schedulers of the dynamics: alpha grows by the documented factor"""
    out = []
    cov = {}
    for cls, fac in (('CBO', '1.05'), ('CBOMemory', '1.05'), ('PSO', '1.05'), ('PolarCBO', '1.05'), ('MirrorCBO', '1.05'), ('AdamCBO', '1.05'), ('CBS', None)):
        D, dd = dyn_state(cls)
        I = D.I
        s = D.call('default_sched')
        t0 = D.term('alpha')
        a0, h0 = dict(D.attrs()), dict(I.heap)
        I.call(I.getattr(s, 'update'), [D.obj], {})
        cov = D.coverage()
        if cls == 'CBS':
            ch = changed_attrs(D, a0, h0)
            out.append(ob('default-scheduler', cls + '.default_sched', 'violated' if set(ch) - {'alpha'} else 'held', '', 'effects', ', '.join(ch)))
            continue
        sh = D.shape('alpha')
        vs = shape_vars(sh)
        out.append(attr_is(D, 'alpha', lambda *i: T.minimum(c(100000), mul(c('1.05') if False else c(1.05), T.subst(t0, {v[0]: k for v, k in zip(vs, i) if v}))), None, 'default-scheduler', cls + '.default_sched', cls))
    return out, cov


def ess(al, E, eta, n):
    s1 = sumv(n, lambda k: exp(neg(mul(al, E(k)))))
    s2 = sumv(n, lambda k: exp(neg(mul(mul(c(2), al), E(k)))))
    return s1 * s1 / s2 - eta * n


def c20_gap():
    fx = Fx()
    E = fx.arr('E', ['M', 'N'])
    al = fx.arr('al', ['M'], props=('pos', 'nonneg'))
    o = fx.new(SM + 'eff_sample_size_gap', E, fx.num('eta', pos=True))
    r = fx.app(o, al)
    return [fx.same(r, ['M'], lambda m: ess(T.arr('al', [m]), lambda k: T.arr('E', [m, k]), sym('eta'), N), 'sample-size-gap', 'eff_sample_size_gap')], fx.coverage()


def c20_bisect(nit):
    """the bisection performs nit+1 halvings of every run's bracket (no early stop: negative threshold)"""
    fx = Fx()
    lo, hi = fx.arr('lo', ['M']), fx.arr('hi', ['M'])
    F = Py(lambda I, a, k: I.arr(I.shape(a[0]), T.app('Q', [], (I.read(a[0]),), (atom(shape_vars(I.shape(a[0]))[0][0]),))), 'gap')
    r = fx.call(SM + 'bisection_solve', F, lo, hi, max_it=nit, thresh=-1)
    def ref(m):
        L, H = T.arr('lo', [m]), T.arr('hi', [m])
        for i in range(nit + 1):
            x = (L + H) / 2
            f = T.app('Q', [], (x,), (m,))
            g, l = T.ind_gt(f), T.ind_gt(neg(f))
            L, H = L + g * (x - L), H + l * (x - H)
        return x
    return [fx.same(r, ['M'], ref, 'bisection', 'bisection_solve', '%d iterations' % nit)], fx.coverage()


class Wave(ri.Model):
    """root functions that change sign often"""

    def uf(self, name, vals):
        return math.sin(sum((5 + 40 * ri.h01(self.seed, name, i)) * v for i, v in enumerate(vals)) + 6 * ri.h01(self.seed, 'ph', name))


def c20_bisect_partial(nit, path):
    """as above with a positive threshold, on one path through the loop: a run within the threshold keeps its solution, the search ends as soon as every run is"""
    fx = Fx()
    lo, hi, th = fx.arr('lo', ['M']), fx.arr('hi', ['M']), fx.num('th', pos=True)
    Q = lambda x, m: T.app('Q', [], (x,), (m,))
    F = Py(lambda I, a, k: I.arr(I.shape(a[0]), Q(I.read(a[0]), atom(shape_vars(I.shape(a[0]))[0][0]))), 'gap')
    fx.I.policy = ([bool(int(q)) for q in path], [])
    r = fx.call(SM + 'bisection_solve', F, lo, hi, max_it=nit, thresh=th)
    conds = fx.I.policy[1]
    fx.I.policy = None

    def steps(m):
        L, H, act, x = T.arr('lo', [m]), T.arr('hi', [m]), ONE, ZERO
        for i in range(nit + 1):
            x = x + act * ((L + H) / 2 - x)
            f = Q(x, m)
            yield x, T.ind_gt(ab(f) - sym('th'))
            g, l = T.ind_gt(f) * act, T.ind_gt(neg(f)) * act
            L, H, act = L + g * (x - L), H + l * (x - H), T.ind_gt(ab(f) - sym('th'))
    b = fresh()

    def ref(m):
        out = None
        for (x, a), (y, a2) in zip(steps(m), steps(atom(b))):
            out = x if out is None else out + run * (x - out)
            go = T.ind_gt(T.sum_([(b, M)], a2))
            run = go if out is x else run * go
        return out
    guard = ONE
    for q in conds:
        guard = guard * q
    ms = []
    for s in range(72):
        ms.append(Wave(s, dims={'M': 1 + s % 3, 'N': 2, 'd': 1}, syms={'th': (0.02, 0.2, 0.4, 0.6, 0.8, 1.5)[s // 3 % 6]}, arrs={'lo': lambda mo, ix: 0.1 + 0.2 * ri.h01('lo', mo.seed, ix), 'hi': lambda mo, ix: 1 + ri.h01('hi', mo.seed, ix)}))
    for s in range(72, 84):
        ms.append(Wave(s, dims={'M': 4 + s % 5, 'N': 2, 'd': 1}, syms={'th': (0.2, 0.6, 0.8)[s % 3]}, arrs=ms[0].arrs))
    o = fx.same(r, ['M'], ref, 'bisection', 'bisection_solve', '%d iterations, path %s' % (nit, path), models=ms, guard=lambda m: guard)
    return [] if o['how'] == 'no-sample' and path in ('10',) else [o], fx.coverage()


def c20_ess_update(torch=False):
    """the scheduler solves the documented equation for the energies of the dynamic and stores one bounded alpha per run"""
    D, dd = dyn_state('CBO')
    I = D.I
    rec = {}
    out = []
    for s in ('eta', 'mx'):
        T.SYM_POS.add(s)
        T.SYM_NONNEG.add(s)
    smod = 'cbx.utils.torch_utils' if torch else 'cbx.scheduler'
    con = ('torch ' if torch else '') + 'effective_sample_size.update'
    o = I.call(I.lookup(smod + ':effective_sample_size'), [], {'eta': Num(sym('eta')), 'maximum': Num(sym('mx'))})
    def solve(I2, a, k):
        names = ['f', 'low', 'high']
        for n, v in zip(names, a):
            rec[n] = v
        rec.update(k)
        return D.mkarr('ROOT', (I.shape(D.get('alpha'))[0],))
    mod = I.load_module(smod)
    set_global(I, mod, 'bisection_solve', Py(solve, 'bisection_solve'))
    a0, h0 = dict(D.attrs()), dict(I.heap)
    I.call(I.getattr(o, 'update'), [D.obj], {})
    out.append(attr_is(D, 'alpha', lambda *i: T.arr('ROOT', [i[0]]) if torch else T.minimum(sym('mx'), T.arr('ROOT', [i[0]])), [M, ONE], 'sample-size-scheduler', con, 'alpha'))
    ch = [k for k in changed_attrs(D, a0, h0) if k != 'alpha']
    out.append(ob('only-its-parameter', con, 'violated' if ch else 'held', '', 'effects', ', '.join(ch)))
    if 'f' in rec:
        al = D.mkarr('al', (I.shape(D.get('alpha'))[0],), props=('pos', 'nonneg'))
        r = I.call(rec['f'], [al], {})
        t, sh = I.read(r), I.shape(r)
        if t is not None:
            m = atom(shape_vars(sh)[0][0])
            v = ri.compare(t, ess(T.arr('al', [m]), lambda k: T.arr(('S', 'energy'), [m, k]), sym('eta'), N), ri.shape_exts(sh))
            out.append(from_verdict(v, 'sample-size-scheduler', con, 'equation'))
        for nm, ref in (('high', sym('mx')), ('low', c(1e-5))):
            t = I.read(rec[nm]) if isinstance(rec.get(nm), Arr) else None
            if t is not None:
                ms = [ri.Model(s, syms={'mx': v}) for s, v in enumerate((0.5, 10., 1e3, 1e5, 1e8))]
                out.append(from_verdict(ri.compare(t, ref, ri.shape_exts(I.shape(rec[nm])), ms), 'sample-size-scheduler', con, 'bracket ' + nm))
    else:
        out.append(ob('sample-size-scheduler', con, 'undecided', 'equation', '', 'no call of bisection_solve'))
    return out, D.coverage()


def set_global(I, mod, name, v):
    from .interp import EnvRec
    r = I.heap[mod.env]
    vs = dict(r.vars)
    vs[name] = v
    I.heap[mod.env] = EnvRec(vs, r.parent)


def c20_tasks(tier):
    out = []
    for n in ('alpha', 'sigma', 'dt', 'lamda'):
        out.append(('multiply ' + n, c20_multiply, (n,)))
    out.append(('multiply alpha twice', c20_multiply, ('alpha', 'CBO', True)))
    out.append(('multiply sigma twice', c20_multiply, ('sigma', 'CBO', True)))
    out.append(('defaults', c20_missing_default, ()))
    out.append(('gap', c20_gap, ()))
    for k in (0, 1, 2) if tier == 'quick' else (0, 1, 2, 3):
        out.append(('bisection %d' % k, c20_bisect, (k,)))
    for k in (1, 2):
        for q in range(2 ** k):
            out.append(('partial bisection %d' % k, c20_bisect_partial, (k, format(q, '0%db' % k))))
    out.append(('effective', c20_ess_update, ()))
    return out


# ------------------------------------------------------------------ regularisers
RM = 'cbx.regularizers:'
REG = {
    'L0': (dict(lamda='lam'), lambda x: sym('lam') * sumv(d, lambda k: T.ind_gt(sub(ab(x(k)), T.const(1e-8))))),
    'L1': (dict(lamda='lam'), lambda x: sym('lam') * sumv(d, lambda k: ab(x(k)))),
    'Plane': (dict(a=('aq', 'd'), b='cb'), lambda x: ab(sumv(d, lambda k: aq(k) * x(k)) - sym('cb')) / sqrt(sumv(d, lambda k: aq(k) * aq(k)))),
    'Sphere': (dict(r='rad'), lambda x: ab(sqrt(nrm2(x)) - sym('rad'))),
    'Quadric': (dict(A=('Aq', 'd', 'd'), b=('bq', 'd'), c='cc'), lambda x: ab(sumv(d, lambda i: sumv(d, lambda j: x(i) * Aq(i, j) * x(j))) + sumv(d, lambda i: bq(i) * x(i)) + sym('cc'))),
}


def c29_func(key):
    kw, ref = REG[key]
    fx = Fx()
    x = fx.arr('X', ['M', 'N', 'd'])
    o = fx.call(RM + 'select_reg_func', dict(name=key, **par(fx, kw)))
    ms = None
    if key == 'L0':                          # some coordinates vanish, some are only small
        ms = fx.models()
        for q, mo in enumerate(ms):
            mo.arrs = dict(mo.arrs, X=lambda model, ix, q=q: (0.0, 1e-12, -0.3, 1e-5, 0.7, -1e-3)[int(6 * ri.h01(q, 'X', ix)) % 6])
    return [fx.same(fx.app(o, x), ['M', 'N'], lambda m, n: ref(lambda k: X(m, n, k)), 'regulariser-formula', type_name(fx, o), key, models=ms)], fx.coverage()


def c29_named(key):
    """a regulariser given by its name alone has the default parameters"""
    kw, ref = REG[key]
    fx = Fx()
    x = fx.arr('X', ['M', 'N', 'd'])
    a, b = fx.call(RM + 'select_reg_func', key), fx.call(RM + 'select_reg_func', dict(name=key))
    ta, tb = fx.app(a, x), fx.app(b, x)
    rd = lambda m, n: T.subst(fx.I.read(tb), dict(zip([v[0] for v in shape_vars(fx.I.shape(tb))], [m, n])))
    out = [fx.same(ta, ['M', 'N'], rd, 'regulariser-formula', type_name(fx, a), key + ' by name')]
    o = fx.call(RM + 'regularize_objective', opaque_field('F', 1, event='eval'), key)
    out.append(ob('regulariser-formula', 'regularize_objective', 'held' if type_name(fx, fx.attr(o, 'reg_func')) == type_name(fx, a) else 'violated', key + ' by name', 'abstract execution'))
    return out, fx.coverage()


def c29_objective(p, per_run, key='Sphere'):
    """f + lambda R^p with the lambda of the run; lambda may become an array with one entry per run"""
    kw, ref = REG[key]
    fx = Fx()
    x = fx.arr('X', ['M', 'N', 'd'])
    F = opaque_field('F', 1, event='eval')
    rf = fx.call(RM + 'select_reg_func', dict(name=key, **par(fx, kw)))
    o = fx.new(RM + 'regularize_objective', F, rf, lamda=fx.num('lr', pos=True), p=p)
    if per_run:
        fx.meth(o, 'broadcast_lamda', x)
        fx.meth(o, 'broadcast_lamda', x)
    from .spec import Fapp
    class D:
        dd = [d]
    return [fx.same(fx.app(o, x), ['M', 'N'], lambda m, n: Fapp(D, lambda k: X(m, n, k)) + sym('lr') * pw(ref(lambda k: X(m, n, k)), p), 'regularised-objective', 'regularize_objective', 'p=%g per_run=%s' % (p, per_run))], fx.coverage()


def c29_sched(rule):
    """theta and lambda of each run follow the documented rule; lambda stays within its bound"""
    dd = dc.mk('CBO', 'none', 'all')
    D = Dyn(dc.mkcfg(dd))
    D.ready()
    I = D.I
    for s in ('th', 'thm', 'ft', 'fl', 'lmx', 'lr'):
        T.SYM_POS.add(s)
        T.SYM_NONNEG.add(s)
    R = opaque_field('R', 1)
    o = I.call(I.lookup(RM + 'regularize_objective'), [D.get('f'), R], {'lamda': Num(sym('lr'))})
    D.set('f', o)
    from .interp import Str
    s = I.call(I.lookup(RM + 'regularization_paramter_scheduler'), [], {
        'theta': Num(sym('th')), 'theta_max': Num(sym('thm')), 'factor_theta': Num(sym('ft')), 'factor_lamda': Num(sym('fl')), 'lamda_max': Num(sym('lmx')), 'rule_mean': Str(rule)})
    x0 = D.term('x')
    vs = shape_vars(D.xshape)
    xt = lambda m, n, k: T.subst(x0, {vs[0][0]: m, vs[1][0]: n, vs[2][0]: k})
    def app(name, m, n):
        b = T.fresh()
        return T.app(name, [(b, d)], (xt(m, n, atom(b)),), ())
    al = lambda m: T.arr(('S', 'alpha'), [m, ZERO])
    def mean(m, lam):
        if rule != 'weighted':
            return sumv(N, lambda n: app('R', m, n)) / N
        en = lambda n: app('F', m, n) + lam * app('R', m, n)
        w = lambda n: exp(neg(sym('AL') * en(n)))
        return sumv(N, lambda n: w(n) * app('R', m, n)) / sumv(N, w)
    D.set('alpha', D.mkarr('ALP', I.shape(D.get('alpha')), props=('pos', 'nonneg')))
    ar = lambda m: T.arr('ALP', [m] if len(I.read(D.get('alpha')).fv) == 1 else [m, ZERO])
    out = []
    lam, th = (lambda m: sym('lr')), (lambda m: sym('th'))
    def meanr(m, lamv):
        if rule != 'weighted':
            return mean(m, lamv)
        en = lambda n: app('F', m, n) + lamv * app('R', m, n)
        w = lambda n: exp(neg(ar(m) * en(n)))
        return sumv(N, lambda n: w(n) * app('R', m, n)) / sumv(N, w)
    models = []
    for q in range(24):
        # thresholds 1/sqrt(theta) around the values of the regulariser, bounds that do and do not bind
        sy = {'th': (0.4, 30.0, 4.0, 120.0)[q % 4]} if q < 8 else {'th': (0.25 + 0.05 * (q - 8)) ** -2.0, 'ft': 1.3, 'thm': 1e4 if q % 3 else 2.0, 'fl': 1.7, 'lmx': 1e4 if q % 4 else 0.5}
        if q % 5 == 4:
            sy['lr'] = 10.0 ** -(q % 3 + 3)
        models.append(ri.Model(q, syms=sy))
    rounds = 2 if rule != 'weighted' else 1
    for rd in range(rounds):
        l0, t0 = lam, th
        I.call(I.getattr(s, 'update'), [D.obj], {})
        def sat(m, l0=l0, t0=t0):
            return T.ind_ge(sub(1 / sqrt(t0(m)), meanr(m, l0(m))))
        th = lambda m, t0=t0, sat=sat: sat(m) * T.minimum(t0(m) * sym('ft'), sym('thm')) + (1 - sat(m)) * T.minimum(t0(m) / sym('ft'), sym('thm'))
        lam = lambda m, l0=l0, sat=sat: T.minimum(sat(m) * l0(m) + (1 - sat(m)) * l0(m) * sym('fl'), sym('lmx'))
        for nm, obj, ref in (('theta', s, th), ('lamda', o, lam)):
            v = I.getattr(obj, nm)
            t = I.read(v) if isinstance(v, Arr) else None
            cfg = '%s %s update %d' % (rule, nm, rd + 1)
            if t is None:
                out.append(ob('regularisation-schedule', 'regularization_paramter_scheduler.update', 'undecided', cfg))
                continue
            sh = I.shape(v)
            m = atom(shape_vars(sh)[0][0])
            out.append(from_verdict(ri.compare(t, ref(m), ri.shape_exts(sh), models, npoints=6), 'regularisation-schedule', 'regularization_paramter_scheduler.update', cfg))
    return out, D.coverage()


def c29_count():
    """the evaluations the regularised objective reports are those of its objective"""
    fx = Fx()
    x, y = fx.arr('X', ['M', 'N', 'd']), fx.arr('X2', ['N', 'd'])
    g = fx.new('cbx.utils.objective_handling:cbx_objective_fh', opaque_field('F', 1, event='eval'))
    o = fx.new(RM + 'regularize_objective', g, 'L1', lamda=fx.num('lr', pos=True))
    out = []
    want = ZERO
    for q, (a, k) in enumerate(((x, mul(T.dim('M'), T.dim('N'))), (y, T.dim('N')))):
        fx.app(o, a)
        want = add(want, k)
        out.append(fx.same(fx.attr(o, 'num_eval'), [], lambda: want, 'regularised-count', 'regularize_objective.num_eval', 'call %d' % (q + 1)))
    return out, fx.coverage()


def c29_tasks(tier):
    out = [(k, c29_func, (k,)) for k in REG]
    out += [('name ' + k, c29_named, (k,)) for k in ('L0', 'L1', 'Plane', 'Sphere')]
    for p in (1, 2, 3, 0.5):
        for b in (False, True):
            for k in (('Sphere',) if tier == 'quick' else tuple(REG)):
                out.append(('objective p=%g %s %s' % (p, b, k), c29_objective, (p, b, k)))
    out.append(('evaluation count', c29_count, ()))
    for r in ('weighted', 'mean'):
        out.append(('schedule ' + r, c29_sched, (r,)))
    return out
