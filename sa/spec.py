"""Reference terms (the specification side) and canonicalisation of random draws."""
from . import terms as T
from .terms import ZERO, ONE, atom, fresh, add, sub, mul, div, neg
from .interp import Arr, Tup, Num, shape_vars, extent
from . import ri
from .config import M, N, B, A, R, Cfg, Dyn


def S(name, *idx):
    return T.arr(('S', name), list(idx))


def sumv(ext, f):
    v = fresh()
    return T.sum_([(v, ext)], f(atom(v)))


def sums(exts, f):
    vs = [fresh() for _ in exts]
    return T.sum_(list(zip(vs, exts)), f(*[atom(v) for v in vs]))


def Fapp(D, f, name='F'):
    """objective at the point with coordinates f(*k)"""
    vs = [fresh() for _ in D.dd]
    return T.app(name, list(zip(vs, D.dd)), (f(*[atom(v) for v in vs]),), ())


class View:
    """coordinates of one dynamic configuration after D.ready().step()"""

    def __init__(self, D):
        self.D = D
        vs = shape_vars(D.xshape)
        self.m, self.n = atom(vs[0][0]), atom(vs[1][0])
        self.ks = [atom(q[0]) for q in vs[2:]]
        self.subset = D.cfg.active == 'subset'
        self.batched = D.cfg.batch != 'none'
        self.nb = B if self.batched else N
        self.exts = ri.shape_exts(D.xshape)
        self._pi = None

    def act(self, m):
        return T.arr('ACT', [m]) if self.subset else ONE

    def row(self, m):
        if not self.subset:
            return m
        b = fresh()
        return T.rank(M, b, T.arr('ACT', [atom(b)]), m)

    def run(self, i):
        if not self.subset:
            return i
        b = fresh()
        return T.enum(M, b, T.arr('ACT', [atom(b)]), i)

    def pi(self, m, b):
        """index of the b-th particle of the batch of run m"""
        if not self.batched:
            return b
        if self._pi is None:
            D = self.D
            ci = D.get('consensus_idx')
            t = None
            if isinstance(ci, Tup) and len(ci.items) >= 2 and isinstance(ci.items[1], Arr):
                t = D.I.read(ci.items[1])
                sh = D.I.shape(ci.items[1])
            if t is None or len(sh) != 2:
                raise KeyError('batch indices not found')
            vs = shape_vars(sh)
            self._pi = (t, vs[0][0], vs[1][0])
        t, vi, vj = self._pi
        return T.subst(t, {vi: self.row(m), vj: b})

    def inb(self, m, n):
        if self.D.cfg.batch in ('none', 'full'):
            return ONE
        return sumv(B, lambda b: T.ind_eq(sub(self.pi(m, b), n)))

    def names(self, t):
        return sorted({a.args[0] for a in T.walk(t) if a.kind == 'arr' and isinstance(a.args[0], tuple) and a.args[0][0] == 'rng'})


def expand_all(p):
    return T.expand(p)


def canon_rng(t, outs, lead, order=None):
    """replace draws rng[idx] by Z<o>[lead..., last]; returns (term, list of (name, index tuples), problems)"""
    p = T.expand(t)
    names = sorted({a.args[0] for a in T.walk(p) if a.kind == 'arr' and isinstance(a.args[0], tuple) and a.args[0][0] == 'rng'})
    order = order or names
    uses = {}
    prob = []
    lead = list(lead)
    nl = len(lead)
    outv = set()
    for o in outs:
        outv |= o.fv

    def f(a):
        if a.kind == 'arr' and isinstance(a.args[0], tuple) and a.args[0][0] == 'rng':
            nm, idx = a.args
            uses.setdefault(nm, set()).add(idx)
            z = ('Z', order.index(nm))
            fv = set()
            for i in idx:
                fv |= i.fv
            if fv <= outv:
                return T.arr(z, list(outs))
            if len(idx) > nl and all(i.fv <= outv for i in idx[:nl]):
                return T.arr(z, lead + list(idx[nl:]))
            prob.append((nm, idx))
            return None
    q = T.replace(p, f)
    return q, uses, prob, names


def draw_injective(D, name, idxs, outs, guard, exts, models):
    """distinct (run, particle, coordinate) triples use distinct draws"""
    bad = None
    n = 0
    for mo in models:
        seen = {}
        vs = []
        for o in outs:
            vs += sorted(o.fv, key=lambda v: v.uid)
        sizes = [int(round(mo.ev(exts[v], {}))) for v in vs]
        import itertools
        for idx in idxs:
            if any(not (i.fv <= set(vs)) for i in idx):
                continue
            seen = {}
            for pt in itertools.product(*[range(s) for s in sizes]):
                env = dict(zip(vs, pt))
                try:
                    if mo.ev(guard, env) == 0:
                        continue
                    key = tuple(mo.idx(i, env) for i in idx)
                except ri.Skip:
                    continue
                n += 1
                if key in seen and seen[key] != pt:
                    bad = 'draw %s%s serves %s and %s' % (name, key, seen[key], pt)
                    return False, bad, n
                seen[key] = pt
    return True, '', n


# ------------------------------------------------------------- formulas
def gibbs(D, ext, en, alpha, pt, extra=None, mask=None):
    """sum_b exp(-alpha*en(b) [- extra(b)]) pt(b) / sum_b exp(...)"""
    def w(b):
        e = neg(mul(alpha, en(b)))
        if extra is not None:
            e = sub(e, extra(b))
        return T.exp(e) if mask is None else mul(mask(b), T.exp(e))
    return div(sumv(ext, lambda b: mul(w(b), pt(b))), sumv(ext, w))


def models_for(D, n=4, seed=0, **kw):
    out = []
    dims = {}
    if D.cfg.exhausted:
        dims['R'] = 1
    if D.cfg.batch == 'concat' and D.cfg.exhausted:
        dims['R'] = 1
    for s in range(n):
        d = dict(dims)
        if s % 4 == 1:
            d['A'] = 1
        elif s % 4 == 2:
            d.update(M=4, A=3)
        elif s % 4 == 3:
            d.update(d=3)
        out.append(ri.Model(seed * 1000 + s, dims=d, **kw))
    if n >= 4:
        out += [Wide(seed * 1000 + 50 + i, f, dims=dict(dims), **kw) for i, f in enumerate((30.0, 0.01))]
        for i in (0, 1):
            m = ri.Model(seed * 1000 + 60 + i, dims=dict(dims), **kw)
            m.tol = 0.4
            out.append(m)
        out += [Span(seed * 1000 + 70 + i, dims=dict(dims), **kw) for i in (0, 1)]
    return out


class Span(ri.Model):
    """every scalar parameter of an order of magnitude of its own"""

    def sym(self, n):
        v = super().sym(n)
        if n in self.syms or n in ('inf', 'pi', 'e', 'nan', 'alpha') or n in T.INT_SYMS:
            return v
        return v * 10 ** (ri.h01(self.seed, 'span', n) * (1.5 if str(n) in ('dt', 'lamda', 'sigma') else 4.5) - 1.5)


class Wide(ri.Model):
    """state of the dynamic and parameters of another order of magnitude"""

    def __init__(self, seed, factor, **kw):
        super().__init__(seed, **kw)
        self.factor = factor

    def arr(self, name, idx):
        v = super().arr(name, idx)
        if not (isinstance(name, tuple) and name[0] == 'S') or name[1] == 'alpha' or name in self.arrs or {'perm', 'ind', 'int', 'unit'} & set(T.ARR_PROP.get(name, ())):
            return v
        return v * self.factor

    def sym(self, n):
        v = super().sym(n)
        if n in self.syms or n in ('inf', 'pi', 'e', 'nan') or n in T.INT_SYMS:
            return v
        return v * (3.0 if self.factor > 1 else 0.3)
