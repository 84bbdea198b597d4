"""C20 schedulers, C28 constraints, C29 regularisation, C30 mirror maps: formulas on symbolic inputs."""
from fractions import Fraction as Fr
from . import terms as T, ri
from .terms import ZERO, ONE, atom, add, sub, mul, div, neg
from .fx import Fx, sym, c, pw, sumv, opaque_field, Scaled
from .runner import ob, from_verdict, ROOT
from .interp import Arr, Num, NONE, Py, Obj, Raised, extent, shape_vars, Tup, Lst

d = T.dim('d')
X = lambda *i: T.arr('X', [T.P(k) for k in i])
Y = lambda *i: T.arr('Y', [T.P(k) for k in i])
sqrt, ab, exp = (lambda x: T.sqrt(T.P(x))), (lambda x: T.abs_(T.P(x))), (lambda x: T.exp(T.P(x)))
dl = lambda i, j: T.ind_eq(sub(i, j))


def nrm2(x):
    return sumv(d, lambda k: x(k) * x(k))


# ------------------------------------------------------------------ constraints
CM = 'cbx.constraints:'


class G:
    """reference of one constraint: value g, gradient dg, hessian H at the point x(k)"""

    def __init__(self, name, kw, g, dg, H, dnew=None):
        self.name, self.kw, self.g, self.dg, self.H = name, kw, g, dg, H


def quad(A, b, cc):
    return (lambda x: sumv(d, lambda i: sumv(d, lambda j: x(i) * A(i, j) * x(j))) + sumv(d, lambda i: b(i) * x(i)) + cc,
            lambda x, i: sumv(d, lambda j: (A(i, j) + A(j, i)) * x(j)) + b(i),
            lambda x, i, j: A(i, j) + A(j, i))


Aq = lambda i, j: T.arr('Aq', [T.P(i), T.P(j)])
bq = lambda i: T.arr('bq', [T.P(i)])
aq = lambda i: T.arr('aq', [T.P(i)])
na = sqrt(sumv(d, lambda k: aq(k) * aq(k)))
CONS = {
    'sphere': G('sphere', dict(r='cr'), lambda x: nrm2(x) - sym('cr') * sym('cr'), lambda x, i: 2 * x(i), lambda x, i, j: 2 * dl(i, j)),
    'plane': G('plane', dict(a=('aq', 'd'), b='cb'), lambda x: (sumv(d, lambda k: aq(k) * x(k)) - sym('cb')) / na, lambda x, i: aq(i) / na, lambda x, i, j: ZERO),
    'quadric': G('quadric', dict(A=('Aq', 'd', 'd'), b=('bq', 'd'), c='cc'), *quad(Aq, bq, sym('cc'))),
    'sphere0': G('sphere', {}, lambda x: nrm2(x) - 1, lambda x, i: 2 * x(i), lambda x, i, j: 2 * dl(i, j)),
}


def par(fx, kw):
    out = {}
    for k, v in kw.items():
        if isinstance(v, str):
            out[k] = fx.num(v, pos=v in ('cr', 'lam', 'de', 'rad', 'fac', 'mx', 'al'))
        elif isinstance(v, tuple):
            out[k] = fx.arr(v[0], v[1:])
        else:
            out[k] = v
    return out


def xs(fx, name='X'):
    return fx.arr(name, ['M', 'N', 'd'])


def c28_formula(key):
    g = CONS[key]
    fx = Fx()
    x = xs(fx)
    o = fx.app(fx.I.lookup(CM + 'get_constraints'), [dict(name=g.name, **par(fx, g.kw))])
    o = fx.I.heap[o.id].items[0]
    out = []
    name = type_name(fx, o)
    pt = lambda m, n: (lambda k: X(m, n, k))
    L = ['M', 'N']
    out.append(fx.same(fx.app(o, x), L, lambda m, n: g.g(pt(m, n)), 'constraint-value', name + '.__call__', key))
    out.append(fx.same(fx.meth(o, 'squared', x), L, lambda m, n: pw(g.g(pt(m, n)), 2), 'constraint-value', name + '.squared', key))
    out.append(fx.same(fx.meth(o, 'grad', x), L + ['d'], lambda m, n, i: g.dg(pt(m, n), i), 'constraint-gradient', name + '.grad', key))
    out.append(fx.same(fx.meth(o, 'grad_squared', x), L + ['d'], lambda m, n, i: 2 * g.g(pt(m, n)) * g.dg(pt(m, n), i), 'constraint-gradient', name + '.grad_squared', key))
    h = fx.meth(o, 'hessian', x)
    if key == 'quadric':
        out.append(fx.same(h, ['d', 'd'], lambda i, j: g.H(None, i, j), 'constraint-hessian', name + '.hessian', key) if len(fx.I.shape(h)) == 2 else
                   fx.same(h, L + ['d', 'd'], lambda m, n, i, j: g.H(None, i, j), 'constraint-hessian', name + '.hessian', key))
    else:
        out.append(fx.same(h, L + ['d', 'd'], lambda m, n, i, j: g.H(pt(m, n), i, j), 'constraint-hessian', name + '.hessian', key))
    out.append(fx.same(fx.meth(o, 'hessian_squared', x), L + ['d', 'd'],
                       lambda m, n, i, j: 2 * (g.dg(pt(m, n), i) * g.dg(pt(m, n), j) + g.g(pt(m, n)) * g.H(pt(m, n), i, j)), 'constraint-hessian', name + '.hessian_squared', key))
    out.append(fx.same(fx.meth(o, 'call_times_hessian', x), L + ['d', 'd'], lambda m, n, i, j: g.g(pt(m, n)) * g.H(pt(m, n), i, j), 'constraint-hessian', name + '.call_times_hessian', key))
    return out, fx.coverage()


def type_name(fx, o):
    return fx.I.heap[o.id].cls.name


def residual(fx, sol, row, rhs, rule, construct, config):
    """sum_j row(m,n,i,j,sol) = rhs(m,n,i): check the defining equation of the solution"""
    t, idx, sh = fx.reads(sol)
    L = [T.dim('M'), T.dim('N'), d]
    if t is None:
        return ob(rule, construct, 'undecided', config, '', 'unknown value')
    if len(sh) != 3 or any(not T.equal(extent(q), e) for q, e in zip(sh, L)):
        return ob(rule, construct, 'violated', config, 'shape', 'result shape (%s)' % ', '.join(T.show(extent(q)) for q in sh))
    vs = shape_vars(sh)
    vk = vs[2][0]
    s = lambda k: T.subst(t, {vk: T.P(k)})
    m, n, i = idx
    v = ri.compare(row(m, n, i, s), rhs(m, n, i), ri.shape_exts(sh), fx.models(), npoints=10)
    return from_verdict(v, rule, construct, config)


def c28_solve(key):
    g = CONS[key]
    fx = Fx()
    x, y, fac = xs(fx), xs(fx, 'Y'), fx.num('fac', pos=True)
    f = sym('fac')
    pt = lambda m, n: (lambda k: X(m, n, k))
    out = []
    for multi in (False, True):
        if multi:
            o = fx.new(CM + 'MultiConstraint', fx.call(CM + 'get_constraints', [dict(name=g.name, **par(fx, g.kw))]))
            name = 'MultiConstraint'
        else:
            l = fx.call(CM + 'get_constraints', [dict(name=g.name, **par(fx, g.kw))])
            o = fx.I.heap[l.id].items[0]
            name = type_name(fx, o)
        m1, m2, m3 = ('solve_Id_call_times_hessian', 'solve_Id_hessian_squared_sum' if multi else 'solve_Id_hessian_squared', 'solve_Id_plus_call_grad')
        rhs = lambda m, n, i: Y(m, n, i)
        out.append(residual(fx, fx.meth(o, m1, x, y, factor=fac), lambda m, n, i, s: s(i) + f * g.g(pt(m, n)) * sumv(d, lambda j: g.H(pt(m, n), i, j) * s(j)), rhs, 'linear-solve', name + '.' + m1, key))
        out.append(residual(fx, fx.meth(o, m2, x, y, factor=fac), lambda m, n, i, s: s(i) + 2 * f * sumv(d, lambda j: (g.dg(pt(m, n), i) * g.dg(pt(m, n), j) + g.g(pt(m, n)) * g.H(pt(m, n), i, j)) * s(j)), rhs, 'linear-solve', name + '.' + m2, key))
        out.append(residual(fx, fx.meth(o, m3, x, y, factor=fac), lambda m, n, i, s: s(i) + 2 * f * g.g(pt(m, n)) * g.dg(s, i), rhs, 'implicit-step', name + '.' + m3, key))
    return out, fx.coverage()


def c28_multi(keys):
    """several constraints: sums over all constraints"""
    gs = [CONS[k.lstrip('=')] for k in keys if k != '-']          # '-': a None entry of the list; '=': the same constraint object once more
    fx = Fx()
    x, y, fac = xs(fx), xs(fx, 'Y'), fx.num('fac', pos=True)
    f = sym('fac')
    plain = [k for k in keys if k[0] != '=']
    spec = {k: dict(name=CONS[k].name, **par(fx, CONS[k].kw)) for k in plain if k != '-'}
    L = fx.call(CM + 'get_constraints', [{'-': None}.get(k, spec.get(k)) for k in plain])
    if len(plain) < len(keys):
        it = fx.I.lib._seq(L)[0]
        L = fx.I.mklist(tuple(it) + tuple(it[[k for k in plain if k != '-'].index(k[1:])] for k in keys if k[0] == '='))
    o = fx.new(CM + 'MultiConstraint', L)
    pt = lambda m, n: (lambda k: X(m, n, k))
    S_ = lambda h: sum((h(g) for g in gs), ZERO)
    L = ['M', 'N']
    cfg = '+'.join(keys)
    hs = lambda g, m, n, i, j: 2 * (g.dg(pt(m, n), i) * g.dg(pt(m, n), j) + g.g(pt(m, n)) * g.H(pt(m, n), i, j))
    out = [
        fx.same(fx.app(o, x), L, lambda m, n: S_(lambda g: g.g(pt(m, n))), 'constraint-sum', 'MultiConstraint.__call__', cfg),
        fx.same(fx.meth(o, 'squared', x), L, lambda m, n: S_(lambda g: pw(g.g(pt(m, n)), 2)), 'constraint-sum', 'MultiConstraint.squared', cfg),
        fx.same(fx.meth(o, 'grad_squared_sum', x), L + ['d'], lambda m, n, i: S_(lambda g: 2 * g.g(pt(m, n)) * g.dg(pt(m, n), i)), 'constraint-sum', 'MultiConstraint.grad_squared_sum', cfg),
        fx.same(fx.meth(o, 'hessian_squared_sum', x), L + ['d', 'd'], lambda m, n, i, j: S_(lambda g: hs(g, m, n, i, j)), 'constraint-sum', 'MultiConstraint.hessian_squared_sum', cfg),
        fx.same(fx.meth(o, 'hessian_sum', x), L + ['d', 'd'], lambda m, n, i, j: S_(lambda g: g.H(pt(m, n), i, j)), 'constraint-sum', 'MultiConstraint.hessian_sum', cfg),
        fx.same(fx.meth(o, 'call_times_hessian_sum', x), L + ['d', 'd'], lambda m, n, i, j: S_(lambda g: g.g(pt(m, n)) * g.H(pt(m, n), i, j)), 'constraint-sum', 'MultiConstraint.call_times_hessian_sum', cfg),
        residual(fx, fx.meth(o, 'solve_Id_call_times_hessian', x, y, factor=fac), lambda m, n, i, s: s(i) + f * S_(lambda g: g.g(pt(m, n)) * sumv(d, lambda j: g.H(pt(m, n), i, j) * s(j))),
                 lambda m, n, i: Y(m, n, i), 'linear-solve', 'MultiConstraint.solve_Id_call_times_hessian', cfg),
        residual(fx, fx.meth(o, 'solve_Id_hessian_squared_sum', x, y, factor=fac), lambda m, n, i, s: s(i) + f * sumv(d, lambda j: S_(lambda g: hs(g, m, n, i, j)) * s(j)),
                 lambda m, n, i: Y(m, n, i), 'linear-solve', 'MultiConstraint.solve_Id_hessian_squared_sum', cfg)]
    try:
        fx.meth(o, 'solve_Id_plus_call_grad', x, y, factor=fac)
        out.append(ob('unsupported-rejected', 'MultiConstraint.solve_Id_plus_call_grad', 'violated', cfg, 'abstract execution', 'accepted for several constraints'))
    except Raised as e:
        out.append(ob('unsupported-rejected', 'MultiConstraint.solve_Id_plus_call_grad', 'held', cfg, 'abstract execution', str(e.exc)))
    return out, fx.coverage()


def c28_empty():
    out = []
    for arg in ([], None, [None]):
        fx = Fx()
        x, y = xs(fx), xs(fx, 'Y')
        o = fx.new(CM + 'MultiConstraint', fx.call(CM + 'get_constraints', arg))
        for mth in ('solve_Id_call_times_hessian', 'solve_Id_plus_call_grad', 'solve_Id_hessian_squared_sum'):
            out.append(fx.same(fx.meth(o, mth, x, y, factor=fx.num('fac')), ['M', 'N', 'd'], lambda m, n, i: Y(m, n, i), 'no-constraint-is-identity', 'MultiConstraint.' + mth, str(arg)))
        out.append(fx.same(fx.meth(o, 'grad_squared_sum', x), ['M', 'N', 'd'], lambda m, n, i: ZERO, 'no-constraint-is-identity', 'MultiConstraint.grad_squared_sum', str(arg)))
    return out, fx.coverage()


def c28_none():
    """the object standing for no constraint: zero value and derivatives, solves return the right hand side"""
    fx = Fx()
    x, y, fac = xs(fx), xs(fx, 'Y'), fx.num('fac', pos=True)
    o = fx.new(CM + 'NoConstraint')
    L, Z = ['M', 'N'], lambda *i: ZERO
    out = [fx.same(r, L + e, Z, 'no-constraint-is-zero', 'NoConstraint.' + nm, '') for nm, r, e in (
        ('__call__', fx.app(o, x), []), ('squared', fx.meth(o, 'squared', x), []), ('grad', fx.meth(o, 'grad', x), ['d']), ('grad_squared', fx.meth(o, 'grad_squared', x), ['d']),
        ('hessian', fx.meth(o, 'hessian', x), ['d', 'd']), ('hessian_squared', fx.meth(o, 'hessian_squared', x), ['d', 'd']), ('call_times_hessian', fx.meth(o, 'call_times_hessian', x), ['d', 'd']))]
    for mth in ('solve_Id_call_times_hessian', 'solve_Id_hessian_squared'):
        out.append(fx.same(fx.meth(o, mth, x, y, factor=fac), ['M', 'N', 'd'], lambda m, n, i: Y(m, n, i), 'no-constraint-is-identity', 'NoConstraint.' + mth, ''))
    return out, fx.coverage()


def c28_tasks(tier):
    out = [(k, c28_formula, (k,)) for k in CONS] + [(k + ' solve', c28_solve, (k,)) for k in CONS]
    pairs = [('sphere', 'plane'), ('quadric', 'plane'), ('-', 'sphere', '-', 'plane', 'plane'), ('sphere', 'plane', '=sphere')] if tier == 'quick' else [('sphere', 'plane'), ('quadric', 'plane'), ('sphere', 'quadric'), ('sphere0', 'plane', 'quadric'), ('-', 'sphere', '-', 'plane', 'plane'), ('plane', 'quadric', 'sphere', 'quadric'), ('sphere', 'plane', '=sphere'), ('quadric', '=quadric')]
    return out + [('+'.join(p), c28_multi, (p,)) for p in pairs] + [('empty', c28_empty, ()), ('no constraint', c28_none, ())]


# ------------------------------------------------------------------ mirror maps
MM = 'cbx.dynamics.mirrorcbo:'
sg = lambda x: T.sign(T.P(x))


class Mi:
    """reference of a mirror map; scalar maps: phi, dphi, conj act per coordinate"""

    def __init__(self, cls, kw, phi=None, grad=None, conj=None, inv=None, dom=None, hess=None):
        self.cls, self.kw, self.phi, self.grad, self.conj, self.inv, self.dom, self.hess = cls, kw, phi, grad, conj, inv, dom, hess


def sep(f):
    return lambda x: sumv(d, lambda k: f(x(k)))


lam, de, rad = sym('lam'), sym('de'), sym('rad')
cq = lambda i: T.arr('cq', [T.P(i)])


def ball(y, i):
    n = sqrt(sumv(d, lambda k: pw(y(k) - cq(k), 2)))
    return cq(i) + (y(i) - cq(i)) / T.maximum(ONE, n / rad)


def ball0(y, i):
    return y(i) / T.maximum(ONE, sqrt(nrm2(y)))


def ball_potential(center, r):
    def phi(x):
        out = T.ind_gt(sqrt(sumv(d, lambda k: pw(x(k) - center(k), 2))) - r)
        return add(mul(T.INF, out), mul(sub(ONE, out), nrm2(x) / 2))
    return phi


def hyper(y, i):
    return y(i) - (sumv(d, lambda k: aq(k) * y(k)) - sym('cb')) / sumv(d, lambda k: aq(k) * aq(k)) * aq(i)


def hyper0(y, i):
    return y(i) - sumv(d, lambda k: y(k)) / d


def soft(y, i):
    v = T.fresh()
    top = T.max_([(v, d)], y(atom(v)))
    return exp(y(i) - top) / sumv(d, lambda k: exp(y(k) - top))


def inf_norm(y):
    v = T.fresh()
    return T.max_([(v, d)], ab(y(atom(v))))


wq = lambda i, j: (T.arr('Wq', [T.P(i), T.P(j)]) + T.arr('Wq', [T.P(j), T.P(i)])) / 2       # symmetric part of the matrix
ident = lambda x, i: x(i)
# dom: (scale, shift) of the sampled arguments |x| < 1.3*scale around shift
MAPS = {
    'L2': Mi('L2', dict(lamda='lam'), sep(lambda x: lam * x * x / 2), lambda x, i: lam * x(i), lambda y, i: y(i) / lam, True, None, lambda x, i, j: lam * dl(i, j)),
    'ElasticNet': Mi('ElasticNet', dict(delta='de', lamda='lam'), sep(lambda x: x * x / (2 * de) + lam * ab(x)), lambda x, i: x(i) / de + lam * sg(x(i)),
                     lambda y, i: de * sg(y(i)) * T.maximum(ab(y(i)) - lam, ZERO), True),
    'LogBarrierBox': Mi('LogBarrierBox', {}, sep(lambda x: 0 - T.log(1 - x * x)), lambda x, i: 2 * x(i) / (1 - x(i) * x(i)), lambda y, i: y(i) / (1 + sqrt(1 + y(i) * y(i))), True, (0.7, 0),
                        lambda x, i, j: (pw(1 - x(i), -2) + pw(1 + x(i), -2)) * dl(i, j)),
    'NonsmoothBarrier': Mi('NonsmoothBarrier', {}, sep(lambda x: ab(x) / (1 - ab(x))), lambda x, i: sg(x(i)) / pw(1 - ab(x(i)), 2),
                           lambda y, i: sg(y(i)) * T.maximum(1 - sqrt(1 / ab(y(i))), ZERO), True, (0.7, 0), lambda x, i, j: 2 * pw(1 - ab(x(i)), -3) * dl(i, j)),
    'Entropy': Mi('Entropy', {}, sep(lambda x: 0 - x * T.log(x)), None, lambda y, i: exp(0 - y(i) - 1), 'eps', (0.5, 1.0)),
    'EntropySimplex': Mi('EntropySimplex', {}, None, lambda x, i: T.log(x(i)) + 1, soft, 'simplex', (0.5, 1.0)),
    'weighted_L2': Mi('weighted_L2', dict(A=('Wq', 'd', 'd')), lambda x: sumv(d, lambda k: sumv(d, lambda q: wq(k, q) * x(k) * x(q))) / 2, lambda x, i: sumv(d, lambda k: wq(i, k) * x(k)), None, True, None,
                      lambda x, i, j: wq(i, j)),
    'weighted_L2_0': Mi('weighted_L2', {}, sep(lambda x: x * x / 2), lambda x, i: x(i), None, True, None, lambda x, i, j: dl(i, j)),
    'ProjectionBall': Mi('ProjectionBall', dict(radius='rad', center=('cq', 'd')), ball_potential(cq, rad), ident, ball, 'proj'),
    'ProjectionBall0': Mi('ProjectionBall', {}, ball_potential(lambda k: ZERO, ONE), ident, ball0, 'proj'),
    'ProjectionHyperplane': Mi('ProjectionHyperplane', dict(a=('aq', 'd'), b='cb'), None, ident, hyper, 'proj'),
    'ProjectionHyperplane0': Mi('ProjectionHyperplane', {}, None, ident, hyper0, 'proj'),
    'ProjectionSphere': Mi('ProjectionSphere', dict(r='rad'), None, ident, lambda y, i: rad * y(i) / sqrt(nrm2(y)), 'proj'),
    'ProjectionSphere0': Mi('ProjectionSphere', {}, None, ident, lambda y, i: y(i) / sqrt(nrm2(y)), 'proj'),
    'ProjectionSquare': Mi('ProjectionSquare', dict(r='rad'), None, ident, None, 'proj'),
}
INVARIANT = {
    'ProjectionBall': ('le', lambda p: sqrt(sumv(d, lambda k: pw(p(k) - cq(k), 2))), rad),
    'ProjectionBall0': ('le', lambda p: sqrt(nrm2(p)), ONE),
    'ProjectionHyperplane': ('eq', lambda p: sumv(d, lambda k: aq(k) * p(k)), sym('cb')),
    'ProjectionHyperplane0': ('eq', lambda p: sumv(d, lambda k: p(k)), ZERO),
    'ProjectionSphere': ('eq', lambda p: sqrt(nrm2(p)), rad),
    'ProjectionSphere0': ('eq', lambda p: sqrt(nrm2(p)), ONE),
    'ProjectionSquare': ('eq', inf_norm, rad),
    'EntropySimplex': ('eq', lambda p: sumv(d, lambda k: p(k)), ONE),
    'LogBarrierBox': ('le', inf_norm, ONE),
    'NonsmoothBarrier': ('le', inf_norm, ONE),
}


def make_map(fx, key):
    m = MAPS[key]
    if m.kw:
        return fx.call(MM + 'get_mirror_map', dict(name=m.cls, **par(fx, m.kw)))
    return fx.call(MM + 'get_mirror_map', m.cls)


def dommodels(fx, dom, n=6):
    out = []
    for s in range(n):
        mo = Scaled(s, scale=dom[0] if dom else (1.0, 3.0, 0.3, 1.0, 3.0, 0.3, 2e-3, 30.0)[s % 8], shift=dom[1] if dom else 0.0)
        mo.scaled = {'X'}
        out.append(mo)
    return out


def term_at(fx, r, L):
    """function (m, n, k) -> entry of the result"""
    t, idx, sh = fx.reads(r)
    if t is None or len(sh) != 3:
        return None, None, None
    vs = shape_vars(sh)
    return (lambda k: T.subst(t, {vs[2][0]: T.P(k)})), idx, sh


def split_models():
    """a few coordinates close to each other, the others far away"""
    out = []
    for q, far in enumerate((-60.0, 60.0, -3000.0, 3000.0, -3000.0)):
        def val(mo, ix, q=q, far=far):
            v = 6 * ri.h01(q, 'Y', ix) - 3
            return v if ix[-1] % 2 == 0 or ix[-1] == 1 and q == 4 else v + far
        out.append(ri.Model(q, dims={'d': 5}, arrs={'Y': val}))
    return out


def c30_map(key):
    m = MAPS[key]
    fx = Fx()
    x, y = xs(fx), xs(fx, 'Y')
    o = make_map(fx, key)
    name = type_name(fx, o)
    L = ['M', 'N']
    pt = lambda mm, n: (lambda k: X(mm, n, k))
    py = lambda mm, n: (lambda k: Y(mm, n, k))
    out = []
    mods = dommodels(fx, m.dom, 8)
    if m.phi is not None:
        out.append(fx.same(fx.app(o, x), L, lambda a, b: m.phi(pt(a, b)), 'potential', name + '.__call__', key, models=mods))
    if m.grad is not None:
        out.append(fx.same(fx.meth(o, 'grad', x), L + ['d'], lambda a, b, i: m.grad(pt(a, b), i), 'gradient-of-potential', name + '.grad', key, models=mods))
    if m.conj is not None:
        out.append(fx.same(fx.meth(o, 'grad_conj', y), L + ['d'], lambda a, b, i: m.conj(py(a, b), i), 'inverse-map', name + '.grad_conj', key, models=fx.models() + fx.models(n=6, scales=(30.0, 400.0, 3000.0, 2e-3)) + split_models()))
    if m.hess is not None:
        x2 = fx.arr('X', ['N', 'd'])
        out.append(fx.same(fx.meth(o, 'hessian', x2), ['N', 'd', 'd'], lambda n, i, j: m.hess(lambda k: X(n, k), i, j), 'hessian-of-potential', name + '.hessian', key, models=mods))
    r = fx.meth(o, 'grad_conj', fx.meth(o, 'grad', x))
    if m.inv in (True, 'eps'):
        out.append(fx.same(r, L + ['d'], lambda a, b, i: X(a, b, i), 'grad-conj-inverts-grad', name, key, models=mods))
    elif m.inv == 'simplex':
        out.append(fx.same(r, L + ['d'], lambda a, b, i: X(a, b, i) / sumv(d, lambda k: X(a, b, k)), 'grad-conj-inverts-grad', name, key, models=mods))
    n0 = len(fx.I.events)
    p = fx.meth(o, 'grad_conj', y)
    if key == 'EntropySimplex':               # the weights stay finite for dual values of any size
        from .numchecks import Far, exp_args
        out += exp_args(fx.I.events[n0:], {'Y'}, [Far(i, sh, ['Y']) for i, sh in enumerate((250., -250., 3000., -3000.))], name + '.grad_conj', key)
    if m.inv == 'proj':
        pp = fx.meth(o, 'grad_conj', p)
        t, idx, sh = fx.reads(p)
        vs = shape_vars(sh)
        out.append(fx.same(pp, L + ['d'], lambda a, b, i: T.subst(t, {vs[0][0]: a, vs[1][0]: b, vs[2][0]: i}) if t is not None else None, 'projection-idempotent', name + '.grad_conj', key) if t is not None else
                   ob('projection-idempotent', name + '.grad_conj', 'undecided', key))
    if key in INVARIANT:
        out.append(feasible(fx, key, p, name + '.grad_conj', 'range-in-domain', key, fx.models()))
    # the input of the maps is not modified
    for e in fx.I.events:
        if e.kind in ('write', 'store') and e.data.get('root') in (x.id, y.id):
            out.append(ob('input-unchanged', name, 'violated', key, 'effects', 'argument overwritten', '%s:%s' % e.site))
    return out, fx.coverage()


def feasible(fx, key, p, construct, rule, config, models, eps=1e-9):
    kind, fn, rhs = INVARIANT[key]
    s, idx, sh = term_at(fx, p, None)
    if s is None:
        return ob(rule, construct, 'undecided', config)
    lhs = fn(s)
    if kind == 'eq':
        v = ri.compare(lhs, rhs, ri.shape_exts(sh), models, npoints=10)
        return from_verdict(v, rule, construct, config)
    # lhs <= rhs: the positive part of the excess vanishes
    v = ri.compare(T.maximum(sub(lhs, rhs), ZERO), ZERO, ri.shape_exts(sh), models, npoints=10)
    return from_verdict(v, rule, construct, config)


def c30_bregman(key):
    m = MAPS[key]
    fx = Fx()
    x, y = xs(fx), fx.arr('X2', ['M', 'N', 'd'])
    o = make_map(fx, key)
    X2 = lambda *i: T.arr('X2', list(i))
    mods = dommodels(fx, m.dom)
    for mo in mods:
        mo.scaled = {'X', 'X2'}
    return [fx.same(fx.meth(o, 'Bregman_distance', x, y), ['M', 'N'], lambda a, b: m.phi(lambda k: X(a, b, k)) - m.phi(lambda k: X2(a, b, k))
                    - sumv(d, lambda k: m.grad(lambda q: X2(a, b, q), k) * (X(a, b, k) - X2(a, b, k))), 'bregman-distance', type_name(fx, o), key, models=mods)], fx.coverage()


def c30_prox(key):
    """MirrorMaptoPostProcessProx turns a mirror map into a post processing rule: the positions become the image of the old ones under grad_conj"""
    m = MAPS[key]
    fx = Fx()
    y = xs(fx, 'Y')
    o = fx.app(fx.call(MM + 'MirrorMaptoPostProcessProx', fx.I.lookup(MM + {'EntropySimplex': 'NegativeLogEntropySimplex'}.get(m.cls, m.cls))), **par(fx, m.kw))
    dyn = fx.call(MM + 'MirrorMap')             # any object with attributes
    fx.I.setattr(dyn, 'x', y)
    fx.app(o, dyn)
    r = fx.attr(dyn, 'x')
    return [fx.same(r, ['M', 'N', 'd'], lambda a, b, i: m.conj(lambda k: Y(a, b, k), i), 'post-process-projection', 'MirrorMaptoPostProcessProx', key)], fx.coverage()


def c30_names():
    """registry names and defaults"""
    out = []
    for nm, cls in (('None', 'L2'), ('L2', 'L2'), (None, 'L2'), ('ElasticNet', 'ElasticNet'), ('ProjectionBall', 'ProjectionBall'), ('ProjectionHyperplane', 'ProjectionHyperplane'),
                    ('ProjectionSphere', 'ProjectionSphere'), ('ProjectionSquare', 'ProjectionSquare'), ('LogBarrierBox', 'LogBarrierBox'), ('NonsmoothBarrier', 'NonsmoothBarrier'),
                    ('weighted_L2', 'weighted_L2'), ('Entropy', 'Entropy'), ('EntropySimplex', 'NegativeLogEntropySimplex')):
        fx = Fx()
        o = fx.call(MM + 'get_mirror_map', nm)
        got = type_name(fx, o) if isinstance(o, Obj) else '?'
        out.append(ob('registered-name', 'mirror_dict[%s]' % nm, 'held' if got == cls else 'violated', '', 'abstract execution', got))
    fx = Fx()
    try:
        fx.call(MM + 'get_mirror_map', 'no such map')
        out.append(ob('registered-name', 'get_mirror_map', 'violated', 'unknown name', 'abstract execution', 'unknown name accepted'))
    except Raised as e:
        out.append(ob('registered-name', 'get_mirror_map', 'held', 'unknown name', 'abstract execution', str(e.exc)))
    return out, fx.coverage()


def c30_tasks(tier):
    return [(k, c30_map, (k,)) for k in MAPS] + [(k + ' Bregman', c30_bregman, (k,)) for k in MAPS if MAPS[k].phi and MAPS[k].grad] + [(k + ' post process', c30_prox, (k,)) for k in MAPS if MAPS[k].conj] + [('names', c30_names, ())]
