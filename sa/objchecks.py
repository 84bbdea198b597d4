"""C22: benchmark objectives against their documented formulas."""
import math
from . import terms as T, ri
from .terms import ZERO, ONE, atom, add, sub, mul, div, neg
from .fx import Fx, sym, c, pw, sumv
from .runner import ob, from_verdict
from .interp import Arr, NONE, shape_vars

sin, cos = (lambda x: T.fn('sin', T.P(x))), (lambda x: T.fn('cos', T.P(x)))
exp, sqrt, ab = (lambda x: T.exp(T.P(x))), (lambda x: T.sqrt(T.P(x))), (lambda x: T.abs_(T.P(x)))
PI = sym('pi')
E_ = sym('e')
MOD = 'cbx.objectives:'


def P_(x):
    return T.P(x)


def nrm2(x):
    return sumv(T.dim('d'), lambda k: x(k) * x(k))


def nrm(x):
    return sqrt(nrm2(x))


def f_rastrigin(x, b=ZERO, cc=ZERO, A=c(10)):
    d = T.dim('d')
    return sumv(d, lambda k: pw(x(k) - b, 2) - A * cos(2 * PI * (x(k) - b)) + A) + cc


def f_ackley(x, A=c(20), b=c(0.2), cc=2 * PI, mi=lambda k: ZERO):
    d = T.dim('d')
    s = sumv(d, lambda k: pw(x(k) - mi(k), 2))
    return 0 - A * exp(0 - b * sqrt(s / d)) - exp(sumv(d, lambda k: cos(cc * (x(k) - mi(k)))) / d) + A + E_


def f_snow(x, al):
    y0, y1 = al * x(0), al * x(1)
    r = sqrt(y0 * y0 + y1 * y1)
    phi = T.fn('arctan2', y1, y0)
    res = c(0.8)
    for psi in (ZERO, PI / 3, PI * 2 / 3):
        res = T.minimum(res, pw(r, 8) - pw(r, 4) + pw(ab(cos(phi + psi)), T.P(1) and __import__('fractions').Fraction(1, 2)) * pw(r, __import__('fractions').Fraction(3, 10)))
    return res


from fractions import Fraction as Fr                            # noqa: E402

# name -> list of (kwargs builder, trailing dimension, reference)
OBJ = {
    'three_hump_camel': [({}, 2, lambda x: 2 * pw(x(0), 2) - c(1.05) * pw(x(0), 4) + pw(x(0), 6) / 6 + x(0) * x(1) + pw(x(1), 2))],
    'McCormick': [({}, 2, lambda x: sin(x(0) + x(1)) + pw(x(0) - x(1), 2) - c(1.5) * x(0) + c(2.5) * x(1) + 1)],
    'Rosenbrock': [({}, 2, lambda x: pw(1 - x(0), 2) + 100 * pw(x(1) - pw(x(0), 2), 2)),
                   (dict(a='pa', b='pb'), 2, lambda x: pw(sym('pa') - x(0), 2) + sym('pb') * pw(x(1) - pw(x(0), 2), 2))],
    'Himmelblau': [({}, 2, lambda x: pw(pw(x(0), 2) + x(1) - 11, 2) + pw(x(0) + pw(x(1), 2) - 7, 2)),
                   (dict(factor='pf'), 2, lambda x: pw(pw(sym('pf') * x(0), 2) + sym('pf') * x(1) - 11, 2) + pw(sym('pf') * x(0) + pw(sym('pf') * x(1), 2) - 7, 2))],
    'Rastrigin': [({}, 'd', f_rastrigin), (dict(b='pb', c='pc', A='pA'), 'd', lambda x: f_rastrigin(x, sym('pb'), sym('pc'), sym('pA')))],
    'Rastrigin_multimodal': [(dict(alpha=['p0', 'p1'], z=('z', 2, 'd')), 'd', lambda x: f_rastrigin(lambda k: sym('p0') * (x(k) - T.arr('z', [ZERO, k]))) * f_rastrigin(lambda k: sym('p1') * (x(k) - T.arr('z', [ONE, k])))),
                             ({}, 'd', f_rastrigin)],
    'Ackley': [({}, 'd', f_ackley), (dict(A='pA', b='pb', c='pc', minimum=('z', 'd')), 'd', lambda x: f_ackley(x, sym('pA'), sym('pb'), sym('pc'), lambda k: T.arr('z', [k])))],
    'Ackley_multimodal': [(dict(alpha=['p0', 'p1'], z=('z', 2, 'd')), 'd', lambda x: f_ackley(lambda k: sym('p0') * (x(k) - T.arr('z', [ZERO, k]))) * f_ackley(lambda k: sym('p1') * (x(k) - T.arr('z', [ONE, k])))),
                          ({}, 'd', f_ackley)],
    'accelerated_sinus': [({}, 'd', lambda x: sin(nrm(x) / (1 + nrm2(x))) + 1), (dict(a='pa'), 'd', lambda x: sin(sym('pa') * nrm(x) / (1 + nrm2(x))) + 1)],
    'nd_sinus': [({}, 'd', lambda x: (sin(c(0.09) * nrm2(x) / T.dim('d')) + 1) * (pw(c(0.3) * x(0), 4) - pw(c(0.3) * x(0), 2) + 1))],
    'p_4th_order': [({}, 'd', lambda x: sumv(T.dim('d'), lambda k: pw(x(k), 4)) - nrm2(x) + 1)],
    'Quadratic': [({}, 'd', nrm2), (dict(alpha='pa'), 'd', lambda x: pw(sym('pa'), 2) * nrm2(x))],
    'Banana': [({}, 2, lambda x: 2 * pw(pw(x(1) - 1, 2) - (x(0) - c(2.5)) - 1, 2) + (x(0) * x(0) + x(1) * x(1)) / 8),
               (dict(m='pm', sigma='ps', sigma_prior='pp'), 2, lambda x: pw(pw(x(1) - 1, 2) - (x(0) - c(2.5)) - 1 - sym('pm'), 2) / (2 * pw(sym('ps'), 2)) + (x(0) * x(0) + x(1) * x(1)) / (2 * pw(sym('pp'), 2)))],
    'Bimodal': [({}, 2, lambda x: bimodal(x, [1, 1.5], [-1.2, -0.7])), (dict(a=['p0', 'p1'], b=['p2', 'p3']), 2, lambda x: bimodal(x, [sym('p0'), sym('p1')], [sym('p2'), sym('p3')]))],
    'Multimodal': [({}, 2, lambda x: multimodal(x, [(lambda k: ZERO, lambda i, j: T.ind_eq(sub(i, j)))])),
                   (dict(means=[('m0', 2), ('m1', 2)], covs=[('C0', 2, 2), ('C1', 2, 2)]), 2, lambda x: multimodal(x, [
                       (lambda k, q=q: T.arr('m%d' % q, [k]), lambda i, j, q=q: T.arr('C%d' % q, [i, j])) for q in (0, 1)]))],
    'Unimodal': [({}, 2, lambda x: unimodal(x, [-1.2, -0.7])), (dict(a=['p0', 'p1']), 2, lambda x: unimodal(x, [sym('p0'), sym('p1')]))],
    'Bukin6': [({}, 2, lambda x: 100 * sqrt(ab(x(1) - pw(x(0), 2) / 100)) + ab(x(0) + 10) / 100)],
    'cross_in_tray': [({}, 2, lambda x: 0 - c(0.0001) * pw(ab(sin(x(0)) * sin(x(1)) * exp(ab(100 - sqrt(x(0) * x(0) + x(1) * x(1)) / PI))) + 1, Fr(1, 10)))],
    'Easom': [({}, 2, lambda x: 0 - cos(x(0)) * cos(x(1)) * exp(0 - (pw(x(0) - PI, 2) + pw(x(1) - PI, 2))))],
    'drop_wave': [({}, 2, lambda x: 0 - (1 + cos(12 * sqrt(x(0) * x(0) + x(1) * x(1)))) * exp(0 - c(0.5) * (x(0) * x(0) + x(1) * x(1)) / (1 + c(0.001) * (x(0) * x(0) + x(1) * x(1)))))],
    'Holder_table': [({}, 2, lambda x: holder(x(0), x(1))), (dict(factor='pf', shift='ps'), 2, lambda x: holder(sym('pf') * (x(0) - sym('ps')), sym('pf') * (x(1) - sym('ps'))))],
    'snowflake': [({}, 2, lambda x: f_snow(x, c(0.5))), (dict(alpha='pa'), 2, lambda x: f_snow(x, sym('pa')))],
    'eggholder': [({}, 2, lambda x: 0 - (x(1) + 47) * sin(sqrt(ab(x(1) + x(0) / 2 + 47))) - x(0) * sin(sqrt(ab(x(0) - (x(1) + 47)))))],
    'Michalewicz': [({}, 'd', lambda x: 0 - sumv(T.dim('d'), lambda k: sin(x(k)) * pw(sin((k + 1) * pw(x(k), 2) / PI), 20))),
                    (dict(m=3), 'd', lambda x: 0 - sumv(T.dim('d'), lambda k: sin(x(k)) * pw(sin((k + 1) * pw(x(k), 2) / PI), 6)))],
}


def bimodal(x, a, b):
    return 0 - T.log(exp(0 - pw(x(0) - a[0], 2) - pw(x(1) - a[1], 2) / c(0.2)) + exp(0 - pw(x(0) - b[0], 2) / 8 - pw(x(1) - b[1], 2) * 2) / 2)


def mvn(x, m, cov, dim):
    k, i, j = T.fresh(), T.fresh(), T.fresh()
    d = T.P(dim)
    return T.app('mvnpdf', [(k, d), (i, d), (j, d)], [sub(x(atom(k)), T.P(m(atom(k)))), T.P(cov(atom(i), atom(j)))], ())


def multimodal(x, terms):
    return 0 - T.log(sum((mvn(x, m, cv, 2) for m, cv in terms), ZERO))


def unimodal(x, a):
    return 0 - T.log(exp(0 - pw(x(0) - a[0], 2) / 8 - pw(x(1) - a[1], 2) * 2) / 2)


def holder(a, b):
    return 0 - ab(sin(a) * cos(b) * exp(ab(1 - sqrt(a * a + b * b) / PI)))


# documented optimal values at the listed minima: (value, tolerance)
OPT = {'three_hump_camel': (0, 1e-9), 'Himmelblau': (0, 1e-6), 'Rastrigin': (0, 1e-9), 'Bukin6': (0, 1e-9), 'cross_in_tray': (-2.06261, 1e-4),
       'Easom': (-1, 1e-9), 'drop_wave': (-2, 1e-9), 'Holder_table': (-19.2085, 1e-3), 'snowflake': (-0.25, 1e-6), 'eggholder': (-959.6407, 1e-2), 'Michalewicz': (-1.8013, 1e-3)}


def build(fx, kw):
    out = {}
    for k, v in kw.items():
        if isinstance(v, str):
            out[k] = fx.num(v, pos=v in ('pa', 'pb', 'pA', 'pf', 'ps', 'pp'))
        elif isinstance(v, tuple):
            out[k] = fx.arr(v[0], v[1:])
        elif isinstance(v, list):
            out[k] = [fx.arr(w[0], w[1:]) if isinstance(w, tuple) else fx.num(w, pos=w in ('p0', 'p1') and False) for w in v]
        else:
            out[k] = v
    return out


def c22_formula(name, i, rank):
    """value of the objective at every point of an array with rank axes"""
    kw, dim, ref = OBJ[name][i]
    fx = Fx()
    lead = {'1N': [1, 'N'], 'M1': ['M', 1], 1: []}.get(rank) if rank in ('1N', 'M1', 1) else ['M', 'N'][-(rank - 1):]
    x = fx.arr('X', lead + [dim])
    o = fx.new(MOD + name, **build(fx, kw))
    r = fx.app(o, x)
    out = far(fx, name) if name in DENSITIES else []
    return out + [fx.same(r, lead, lambda *l: ref(lambda k: T.arr('X', [i for i, e in zip(l, lead) if e != 1] + [T.P(k)])), 'documented-formula', name,
                    '%s rank %s' % (' '.join(sorted(kw)) or 'default', rank))], fx.coverage()


DENSITIES = ('Bimodal', 'Unimodal', 'Multimodal')


class Far(ri.Model):
    """points far away from all modes, where the densities are not representable"""

    def arr(self, name, idx):
        v = super().arr(name, idx)
        return v * 1e4 + math.copysign(1e4, v) if name == 'X' else v

    def _binder(self, a, env):
        return 0.0 if 'mvnpdf' in a.args else super()._binder(a, env)


def far(fx, name):
    """the logarithm is not taken of a density which has been evaluated (and vanishes far away from its modes)"""
    out = []
    for e in fx.I.events:
        if e.kind != 'log':
            continue
        a = e.data.get('arg')
        t = fx.I.read(a) if isinstance(a, Arr) else getattr(a, 'p', None)
        st, msg = 'held', ''
        env = {v: 0 for w in shape_vars(fx.I.shape(a)) for v in w} if isinstance(a, Arr) else {}
        for seed in range(4):
            m = Far(seed)
            try:
                v = m.ev(t, env) if t is not None else None
            except (ri.Skip, ri.Unknown):
                continue
            if v == 0:
                st, msg = 'violated', 'density evaluated and underflows far away from the modes, its logarithm is infinite'
        out.append(ob('finite-far-away', name, st, str(e.site)[:80], 'evaluation of the argument of the logarithm', msg))
    return out or [ob('finite-far-away', name, 'held', 'no logarithm of an evaluated density', 'effects', '')]


def c22_minima(name):
    """the objective takes its documented optimal value at every listed minimum"""
    val, tol = OPT[name]
    fx = Fx()
    kws = [{}] + [dict(factor=2.0)] * (name in ('Himmelblau', 'Holder_table')) + [dict(b=1.5)] * (name == 'Rastrigin') + [dict(alpha=0.7)] * (name == 'snowflake') \
        + [dict(factor=0.5, shift=1.5)] * (name == 'Holder_table')
    out = []
    for kw in kws:
        o = fx.new(MOD + name, **kw)
        m = fx.attr(o, 'minima')
        if not isinstance(m, Arr):
            out.append(ob('minima', name, 'undecided', str(kw), '', 'minima not an array'))
            continue
        r = fx.app(o, m)
        t, idx, sh = fx.reads(r)
        if t is None or len(sh) != 1:
            out.append(ob('minima', name, 'undecided', str(kw), '', 'unknown value'))
            continue
        mo = ri.Model(0)
        from .interp import extent, shape_vars
        n = int(mo.ev(extent(sh[0]), {}))
        bad, st = '', 'held'
        for j in range(n):
            env = {shape_vars(sh)[0][0]: j} if shape_vars(sh)[0] else {}
            try:
                v = mo.ev(t, env)
            except ri.Skip:
                st = 'undecided' if st == 'held' else st
                continue
            if abs(v - val) > tol:
                st, bad = 'violated', 'value %.6g at listed minimum %d, documented optimum %.6g' % (v, j, val)
        out.append(ob('minima', name, st, str(kw), 'constant propagation', bad or '%d minima' % n))
    return out, fx.coverage()


def tasks(tier):
    out = []
    for name in OBJ:
        for i in range(len(OBJ[name])):
            for r in ((2, 3, '1N', 'M1') if tier == 'quick' else (1, 2, 3, '1N', 'M1')):
                out.append(('%s %d rank %s' % (name, i, r), c22_formula, (name, i, r)))
    for name in OPT:
        out.append((name + ' minima', c22_minima, (name,)))
    return out
