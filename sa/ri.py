"""Random interpretation of value-graph terms.

Decides whether two terms denote the same function of their uninterpreted
symbols: a model assigns small extents to the dimensions, values to the symbols
and smooth functions to the uninterpreted operators; two terms separated by a
model are different, terms that agree on all models are taken to be equal
(random interpretation, Gulwani/Necula).  Only *terms* are evaluated, never the
analysed program.
"""
import hashlib
import copy
import math
from . import terms as T
from .nplib import PERM_EXT

NAN = float('nan')


INFA = T.raw('sym', 'inf')


class Skip(Exception):
    pass


class Unknown(Skip):
    """the term depends on a value the analysis over-approximates (loop that is not summarised, unknown condition)"""


def unknown_name(n):
    if isinstance(n, tuple):
        return bool(n) and n[0] == 'loop'
    return isinstance(n, str) and n[:1] in '~?' and n != ''


def h01(*key):
    d = hashlib.blake2b(repr(key).encode(), digest_size=8).digest()
    return int.from_bytes(d, 'big') / 2.0 ** 64


# ---------------------------------------------------------------- small dense linear algebra
def jacobi(Am):
    """eigen decomposition of a symmetric matrix: ascending values, columns of V with canonical sign"""
    n = len(Am)
    a = [[Am[max(i, j)][min(i, j)] for j in range(n)] for i in range(n)]
    V = [[float(i == j) for j in range(n)] for i in range(n)]
    for _ in range(100):
        off = sum(a[i][j] ** 2 for i in range(n) for j in range(i))
        if off < 1e-26 * (1 + sum(a[i][i] ** 2 for i in range(n))):
            break
        for p_ in range(n):
            for q in range(p_ + 1, n):
                if abs(a[p_][q]) < 1e-300:
                    continue
                th = (a[q][q] - a[p_][p_]) / (2 * a[p_][q])
                t = math.copysign(1.0, th) / (abs(th) + math.sqrt(th * th + 1)) if th else 1.0
                c = 1 / math.sqrt(t * t + 1)
                s = t * c
                for k in range(n):
                    x, y = a[k][p_], a[k][q]
                    a[k][p_], a[k][q] = c * x - s * y, s * x + c * y
                for k in range(n):
                    x, y = a[p_][k], a[q][k]
                    a[p_][k], a[q][k] = c * x - s * y, s * x + c * y
                for k in range(n):
                    x, y = V[k][p_], V[k][q]
                    V[k][p_], V[k][q] = c * x - s * y, s * x + c * y
    order = sorted(range(n), key=lambda i: a[i][i])
    w = [a[i][i] for i in order]
    cols = []
    for i in order:
        v = [V[k][i] for k in range(n)]
        j = max(range(n), key=lambda k: (round(abs(v[k]), 9), -k))
        if v[j] < 0:
            v = [-x for x in v]
        cols.append(v)
    return w, [[cols[j][i] for j in range(n)] for i in range(n)]


def gauss(Am, b):
    n = len(Am)
    a = [list(r) + [x] for r, x in zip(Am, b)]
    for i in range(n):
        p_ = max(range(i, n), key=lambda r: abs(a[r][i]))
        if abs(a[p_][i]) < 1e-9:
            raise Skip()
        a[i], a[p_] = a[p_], a[i]
        for r in range(n):
            if r != i:
                f = a[r][i] / a[i][i]
                for c in range(i, n + 1):
                    a[r][c] -= f * a[i][c]
    return [a[i][n] / a[i][i] for i in range(n)]


def det(Am):
    n = len(Am)
    a = [list(r) for r in Am]
    d = 1.0
    for i in range(n):
        p_ = max(range(i, n), key=lambda r: abs(a[r][i]))
        if abs(a[p_][i]) < 1e-14:
            return 0.0
        if p_ != i:
            a[i], a[p_] = a[p_], a[i]
            d = -d
        d *= a[i][i]
        for r in range(i + 1, n):
            f = a[r][i] / a[i][i]
            for c in range(i, n):
                a[r][c] -= f * a[i][c]
    return d


def svd(Am):
    """thin svd of an n x k matrix (n >= k), descending"""
    n, k = len(Am), len(Am[0])
    if n < k:
        U, S, V = svd([[Am[i][j] for i in range(n)] for j in range(k)])
        # A^T = U S V -> A = V^T S U^T
        return [list(r) for r in zip(*V)], S, [list(r) for r in zip(*U)]
    G = [[sum(Am[r][i] * Am[r][j] for r in range(n)) for j in range(k)] for i in range(k)]
    w, V = jacobi(G)
    w, V = w[::-1], [r[::-1] for r in V]
    S = [math.sqrt(max(x, 0)) for x in w]
    if min(S) < 1e-6:
        raise Skip()
    U = [[sum(Am[r][i] * V[i][j] for i in range(k)) / S[j] for j in range(k)] for r in range(n)]
    return U, S, [[V[j][i] for j in range(k)] for i in range(k)]


def chol(Am):
    n = len(Am)
    L = [[0.0] * n for _ in range(n)]
    for i in range(n):
        for j in range(i + 1):
            s = Am[i][j] - sum(L[i][k] * L[j][k] for k in range(j))
            if i == j:
                if s <= 0:
                    raise Skip()
                L[i][i] = math.sqrt(s)
            else:
                L[i][j] = s / L[j][j]
    return L


MATOPS = ('solve', 'eighB', 'eighV', 'svdU', 'svdS', 'svdV', 'inv', 'det', 'chol', 'matsqrt')


def matop(op, Am, rhs):
    n = len(Am)
    if op == 'solve':
        return gauss(Am, rhs)
    if op in ('eighB', 'eighV'):
        w, V = jacobi(Am)
        return w if op == 'eighB' else V
    if op == 'matsqrt':
        w, V = jacobi(Am)
        w = [math.sqrt(max(x, 0.0)) for x in w]
        return [[sum(V[i][k] * w[k] * V[j][k] for k in range(n)) for j in range(n)] for i in range(n)]
    if op in ('svdU', 'svdS', 'svdV'):
        return svd(Am)[('svdU', 'svdS', 'svdV').index(op)]
    if op == 'det':
        return det(Am)
    if op == 'chol':
        return chol(Am)
    cols = [gauss(Am, [float(i == j) for i in range(n)]) for j in range(n)]
    return [[cols[j][i] for j in range(n)] for i in range(n)]


class Model:
    BASE = {'M': 3, 'N': 5, 'B': 2, 'A': 2, 'R': 3, 'd': 2, 'd0': 2, 'd1': 2}

    def __init__(self, seed=0, dims=None, syms=None, arrs=None, fns=None):
        self.seed = seed
        self.dims = dict(self.BASE)
        if dims:
            self.dims.update(dims)
        self.syms = syms or {}
        self.arrs = arrs or {}
        self.fns = fns or {}
        self.memo = {}
        self.perms = {}

    def variant(self, k):
        """another model of the same kind"""
        m = copy.copy(self)
        m.seed = self.seed + 100003 * k
        m.memo, m.perms = {}, {}
        return m

    # ---- leaves
    def dim(self, n):
        if n in self.dims:
            return self.dims[n]
        return 2 + int(3 * h01(self.seed, 'dim', n))

    def sym(self, n):
        if n in self.syms:
            v = self.syms[n]
            return v(self) if callable(v) else v
        if n == 'inf':
            return math.inf
        if n == 'pi':
            return math.pi
        if n == 'e':
            return math.e
        if n == 'nan':
            return NAN
        if unknown_name(n):
            raise Unknown()
        u = h01(self.seed, 'sym', n)
        if n in T.INT_SYMS:
            return float(int(u * 7))
        if n in T.SYM_POS or n in T.SYM_NONNEG:
            return 0.2 + 0.9 * u
        return 2.4 * u - 1.2

    def arr(self, name, idx):
        h = self.arrs.get(name)
        if h is not None:
            return h(self, idx)
        if name == 'ACT':
            a = self.dims['A']
            m = self.dims['M']
            order = sorted(range(m), key=lambda i: h01(self.seed, 'act', i))
            return float(idx[0] in order[:a])
        if unknown_name(name):
            raise Unknown()
        pr = T.ARR_PROP.get(name, ())
        if 'perm' in pr:
            p = self.perm(name, idx[:-1])
            j = idx[-1]
            if 0 <= j < len(p):
                return float(p[j])
            return float(len(p) + j)
        u = h01(self.seed, 'arr', name, idx)
        if 'ind' in pr:
            return float(u > 0.5)
        if 'int' in pr:
            return float(int(u * 4))
        if 'pos' in pr or 'nonneg' in pr:
            return 0.1 + 1.2 * u
        if 'unit' in pr:
            return u
        return 2.6 * u - 1.3

    def perm(self, name, lead):
        k = (name, lead)
        p = self.perms.get(k)
        if p is None:
            e = PERM_EXT.get(name)
            n = int(self.ev(e, {})) if e is not None else self.dims['N']
            p = sorted(range(n), key=lambda i: h01(self.seed, 'perm', name, lead, i))
            self.perms[k] = p
        return p

    # ---- terms
    def ev(self, p, env):
        tot = 0.0
        infc = None
        for m, c in p.t:
            v = float(c)
            hasinf = False
            unk = None
            if self.strict and self.masked(m, env):
                continue
            for a, e in m:
                if a is INFA and e == 1:
                    hasinf = True               # selections c*inf + (1-c)*y: the coefficient of inf is collected
                    continue
                try:
                    x = self.atom(a, env)
                except Unknown as ex:
                    unk = ex                    # irrelevant if another factor is zero
                    continue
                if e == 1:
                    f = x
                elif e.denominator == 1:
                    if e < 0 and x == 0:
                        raise Skip()
                    f = x ** int(e) if x not in (math.inf, -math.inf) else (0.0 if e < 0 else math.inf)
                else:
                    if x < 0 or (e < 0 and x == 0):
                        if x > -1e-9 and e > 0:
                            x = 0.0
                        else:
                            raise Skip()
                    f = x ** float(e)
                if f == 0:
                    v = 0.0
                    break
                v *= f
                if v != v:
                    raise Skip()
            else:
                if unk is not None:
                    raise unk
            if hasinf:
                infc = v if infc is None else infc + v
                continue
            tot += v
            if tot != tot:
                raise Skip()
        if infc is not None and abs(infc) > 1e-9:
            tot += math.copysign(math.inf, infc)
            if tot != tot:
                raise Skip()
        return tot

    strict = False                              # 0 * (1/0) has no value, unless the zero is a selection

    def masked(self, m, env):
        for a, e in m:
            if a.kind in ('gt', 'ge', 'eq') and self.atom(a, env) == 0:
                return True
        for a, e in m:
            if e < 0 and a is not INFA and self.atom(a, env) == 0:
                raise Skip()
        return False

    def atom(self, a, env):
        if a.fv:
            key = (a, tuple(sorted((v.uid, env[v]) for v in a.fv)))
        else:
            key = (a, ())
        r = self.memo.get(key)
        if r is None:
            try:
                r = self._atom(a, env)
            except OverflowError:
                raise Skip()
            if r != r:
                raise Skip()
            self.memo[key] = r
        return r

    def idx(self, p, env):
        v = self.ev(p, env)
        if v == math.inf or v == -math.inf:
            raise Skip()
        r = round(v)
        if abs(r - v) > 1e-6:
            return round(v, 6)
        return r

    def uf(self, name, vals):
        """smooth uninterpreted function"""
        s = 0.0
        q = 0.0
        for i, v in enumerate(vals):
            if v == math.inf or v == -math.inf:
                v = math.copysign(1e3, v)
            s += (0.4 + h01('a', name, i)) * v
            q += (0.1 + 0.5 * h01('b', name, i)) * v * v
        return math.sin(s + 6 * h01('c', name)) + 0.4 * q / (1 + 0.1 * q) + 0.2 * math.cos(1.7 * s)

    tol = 0.0
    hyp = None                                    # sizes assumed by branch conditions (sizes too large to be summed over)

    def widened(self, p, env):
        """value of a comparison; small literal offsets are enlarged to self.tol, so that inputs within a tolerance are sampled"""
        v = self.ev(p, env)
        if self.tol:
            w = max((abs(float(c)) for m, c in p.t if m), default=0.0)
            for m, c in p.t:
                if not m and 0 < abs(c) <= 0.02 * w:
                    v += math.copysign(self.tol * w - abs(float(c)), c)
        return v

    def _atom(self, a, env):
        k = a.kind
        if k in ('ix', 'bv'):
            return float(env[a])
        if k == 'dim':
            return float(self.dim(a.args[0]))
        if k == 'sym':
            return float(self.sym(a.args[0]))
        if k == 'num':
            return float(a.args[0])
        if k == 'P':
            return self.ev(a.args[0], env)
        if k == 'arr' and a.args[0] in T.LETDEF:
            cv, q = T.LETDEF[a.args[0]]
            e = {}
            for c, i in zip(cv, a.args[1]):
                v = self.ev(i, env)
                e[c] = round(v) if abs(v - round(v)) < 1e-6 else v
            return self.ev(q, e)
        if k == 'arr':
            return self.arr(a.args[0], tuple(self.idx(i, env) for i in a.args[1]))
        if self.hyp and k in ('gt', 'ge', 'eq'):
            g = gate(a)
            if g is not None and g[0] in self.hyp:
                v = g[1] * self.hyp[g[0]] + g[2]
                return float(v > 0 if k == 'gt' else v >= 0 if k == 'ge' else v == 0)
        if k == 'gt':
            v = self.widened(a.args[0], env)
            if v != 0 and abs(v) < 1e-9:
                v = 0.0
            return float(v > 0)
        if k == 'ge':
            v = self.widened(a.args[0], env)
            if v != 0 and abs(v) < 1e-9:
                v = 0.0
            return float(v >= 0)
        if k == 'eq':
            return float(abs(self.ev(a.args[0], env)) < 1e-9)
        if k == 'fn':
            return self._fn(a, env)
        if k == 'B':
            return self._binder(a, env)
        return self.uf(k, [self.ev(x, env) if isinstance(x, T.Poly) else h01(repr(x)) for x in a.args])

    def _fn(self, a, env):
        n = a.args[0]
        if n in self.fns:
            return self.fns[n](self, *[self.ev(x, env) for x in a.args[1:]])
        if n == 'binv':
            lead = tuple(self.idx(i, env) for i in a.args[2])
            v = self.idx(a.args[3], env)
            p = self.perm(a.args[1], lead)
            return float(p.index(v)) if v in p else 1e6
        if n == 'inbatch':
            lead = tuple(self.idx(i, env) for i in a.args[2])
            v = self.idx(a.args[3], env)
            off, ext = self.ev(a.args[4], env), self.ev(a.args[5], env)
            p = self.perm(a.args[1], lead)
            return float(v in p and off <= p.index(v) < off + ext)
        v = [self.ev(x, env) if isinstance(x, T.Poly) else x for x in a.args[1:]]
        x = v[0] if v else 0.0
        if n == 'exp':
            if x > 700:
                raise Skip()
            return math.exp(x)
        if n == 'log':
            if x <= 0:
                if x == 0:
                    return -math.inf
                raise Skip()
            return math.log(x)
        if n == 'abs':
            return abs(x)
        if n == 'sign':
            return 0.0 if abs(x) < 1e-12 else math.copysign(1.0, x)
        if n == 'pos':
            return max(x, 0.0)
        if n == 'nan2num':
            return x
        if n in ('sin', 'cos', 'tan', 'tanh', 'cosh', 'sinh', 'erf', 'floor', 'ceil', 'trunc'):
            if x in (math.inf, -math.inf):
                raise Skip()
            if n in ('floor', 'ceil', 'trunc') and abs(x - round(x)) < 1e-9:
                return float(round(x))
            return float(getattr(math, n)(x))
        if n == 'arctan':
            return math.atan(x)
        if n == 'arctan2':
            return math.atan2(x, v[1])
        if n == 'mod':
            if v[1] == 0:
                raise Skip()
            return x - v[1] * math.floor(x / v[1] + 1e-12)
        if n == 'floordiv':
            if v[1] == 0:
                raise Skip()
            return float(math.floor(x / v[1] + 1e-12))
        if n == 'round':
            return float(round(x))
        if n == 'powinf':
            b = abs(x)
            return 0.0 if b < 1 else 1.0 if b == 1 else math.inf
        if n in ('pow', 'powA'):
            b, e = v[0], v[1] if len(v) > 1 else 1.0
            if b < 0 and e != int(e):
                raise Skip()
            if b == 0 and e < 0:
                raise Skip()
            return float(b ** e)
        if n == 'isnan':
            return 0.0
        if n == 'isclose0':
            return float(abs(x) < 1e-8)
        return self.uf(('fn', n), [y if isinstance(y, float) else h01(repr(y)) for y in v])

    def _binder(self, a, env):
        op, exts, bodies, outs, lvl = a.args
        ns = [self.ev(e, env) for e in exts]
        for n in ns:
            if n in (math.inf, -math.inf) or abs(n - round(n)) > 1e-6 or n > 400:
                raise Skip()
        ns = [max(0, round(n)) for n in ns]
        bvs = [T.raw('bv', lvl + 1 + i) for i in range(len(exts))]
        e2 = dict(env)

        def rows(body):
            out = []

            def rec(i):
                if i == len(bvs):
                    out.append(self.ev(body, e2))
                    return
                for j in range(ns[i]):
                    e2[bvs[i]] = j
                    rec(i + 1)
            rec(0)
            return out
        if op == 'sum':
            return math.fsum(rows(bodies[0])) if True else 0
        if op == 'prod':
            r = 1.0
            for x in rows(bodies[0]):
                r *= x
            return r
        if op == 'max':
            r = rows(bodies[0])
            return max(r) if r else -math.inf
        if op == 'any':
            return float(any(abs(x) > 1e-12 for x in rows(bodies[0])))
        if op == 'argmax':
            r = rows(bodies[0])
            return float(r.index(max(r))) if r else 0.0
        if op == 'enum':
            r = [i for i, x in enumerate(rows(bodies[0])) if abs(x) > 1e-12]
            k = self.idx(outs[0], env)
            if not isinstance(k, int) or not 0 <= k < len(r):
                return 1e5 + (k if isinstance(k, int) else 0)
            return float(r[k])
        if op == 'rank':
            r = rows(bodies[0])
            m = self.idx(outs[0], env)
            return float(sum(1 for i, x in enumerate(r) if i < m and abs(x) > 1e-12))
        if op in MATOPS and len(ns) % 2 == 0:
            h = len(ns) // 2
            nr = math.prod(ns[:h])
            nc = math.prod(ns[h:])
            r0 = rows(bodies[0])
            r1 = rows(bodies[1]) if len(bodies) > 1 else ()
            key = ('mat', op, tuple(r0), tuple(r1), nr)
            res = self.memo.get(key)
            if res is None:
                Am = [r0[i * nc:(i + 1) * nc] for i in range(nr)]
                rhs = [r1[i * nc] for i in range(nr)] if r1 else None
                res = self.memo[key] = matop(op, Am, rhs)
            o = [self.idx(x, env) for x in outs]
            if op == 'det':
                return res
            if op in ('solve', 'eighB', 'svdS'):
                i = 0
                for x, n_ in zip(o, ns[:len(o)]):
                    i = i * n_ + x
                return res[i]
            if len(o) == 2:
                return res[o[0]][o[1]]
            if len(o) == 2 * h:
                i = j = 0
                for x, n_ in zip(o[:h], ns[:h]):
                    i = i * n_ + x
                for x, n_ in zip(o[h:], ns[h:]):
                    j = j * n_ + x
                return res[i][j]
            raise Skip()
        vals = []
        for b in bodies:
            vals += rows(b)
        o = [self.ev(x, env) if isinstance(x, T.Poly) else h01(repr(x)) for x in outs]
        h = self.fns.get(op)
        if h is not None:
            return h(self, ns, vals, o)
        return self.uf((op, tuple(ns), tuple(round(x, 6) for x in o)), vals)


def free_vars(*ps):
    fv = set()
    for p in ps:
        fv |= p.fv
    return fv


def points(model, fvs, exts, k, seed, guard=None):
    """up to k assignments of the free index variables below their extents (satisfying the guard)"""
    fvs = sorted(fvs, key=lambda v: v.uid)
    sizes = []
    for v in fvs:
        e = exts.get(v)
        n = int(round(model.ev(e, {}))) if e is not None else 2
        if n <= 0:
            return []
        sizes.append(n)
    tot = math.prod(sizes)
    out = []
    if tot <= 400:
        order = sorted(range(tot), key=lambda i: h01(seed, 'pt', i))
    else:
        order = [int(tot * h01(seed, 'pq', i)) % tot for i in range(40 * k)]
    seen = set()
    for i in order:
        if i in seen:
            continue
        seen.add(i)
        env, r = {}, i
        for v, n in zip(fvs, sizes):
            env[v] = r % n
            r //= n
        if guard is not None:
            try:
                if model.ev(guard, env) == 0:
                    continue
            except Skip:
                continue
        out.append(env)
        if len(out) >= k:
            break
    return out


def close(x, y):
    if x == y:
        return True
    if math.isinf(x) or math.isinf(y):
        return False
    return abs(x - y) <= 1e-6 * (1 + abs(x) + abs(y))


class Verdict:
    __slots__ = ('eq', 'how', 'detail', 'n')

    def __init__(self, eq, how, detail='', n=0):
        self.eq, self.how, self.detail, self.n = eq, how, detail, n

    def __bool__(self):
        return self.eq is not False


class Scaled(Model):
    """array entries of another order of magnitude"""

    def __init__(self, seed, factor, **kw):
        super().__init__(seed, **kw)
        self.factor = factor

    def arr(self, name, idx):
        v = super().arr(name, idx)
        if name in self.arrs or name == 'ACT' or {'perm', 'ind', 'int', 'unit'} & set(T.ARR_PROP.get(name, ())):
            return v
        return v * self.factor


MOREMODELS, MOREWORK = 40, 20000
MAXPAIRS = 30
MAXGATES = 6


def gate(a):
    """(leaf, slope, offset) of a comparison which depends on one scalar parameter or size only"""
    leaf = slope = None
    off = 0.0
    for m, c in a.args[a.kind == 'fn'].t:
        if not m:
            off = float(c)
        elif len(m) == 1 and m[0][1] == 1 and m[0][0].kind in ('dim', 'sym') and leaf is None:
            leaf, slope = m[0][0], float(c)
        else:
            return None
    return None if leaf is None else (leaf, slope, off)


def gate2(a):
    """(monomial, slope, offset) of a comparison which depends on one product or quotient of scalar parameters and sizes"""
    mono = slope = None
    off = 0.0
    for m, c in a.args[a.kind == 'fn'].t:
        if not m:
            off = float(c)
        elif mono is None and all(x.kind in ('dim', 'sym') for x, e in m):
            mono, slope = m, float(c)
        else:
            return None
    if mono is None or len(mono) == 1 and mono[0][1] == 1:
        return None
    return mono, slope, off


def gate2_models(mono, t, base, k):
    """models in which the monomial is a little below and above t"""
    out = []
    syms = [(x, e) for x, e in mono if x.kind == 'sym' and x.args[0] not in base.syms and x.args[0] not in T.INT_SYMS
            and x.args[0] not in ('inf', 'pi', 'e', 'nan') and not unknown_name(x.args[0])]
    if syms:
        if not 1e-4 <= t <= 1e4:
            return []
        leaf, e = syms[-1]
        for f in (0.7, 1.0, 1.3):
            m = base.variant(k + len(out) + 1)
            try:
                rest = 1.0
                for x, ex in mono:
                    if x is not leaf:
                        rest *= m._atom(x, {}) ** float(ex)
                v = (f * t / rest) ** (1 / float(e))
            except (Skip, Unknown, ZeroDivisionError, OverflowError, TypeError):
                continue
            if isinstance(v, complex) or not 1e-6 <= v <= 1e6:
                continue
            m.syms = dict(m.syms)
            m.syms[leaf.args[0]] = v
            out.append(m)
        return out
    names = [x.args[0] for x, e in mono]
    if any(x.kind != 'dim' or not str(n)[:1] in 'MNd' for (x, e), n in zip(mono, names)):
        return []
    val = lambda v: math.prod(v ** float(e) for x, e in mono)
    for v in range(1, 9):
        if (val(v) > t) != (val(v + 1) > t) or val(v) == t:
            for w in {v, v + 1}:
                m = base.variant(k + len(out) + 1)
                m.dims = dict(m.dims)
                for n in names:
                    m.dims[n] = w
                for big, small in (('N', 'B'), ('M', 'A')):
                    m.dims[small] = min(m.dims[small], m.dims[big])
                out.append(m)
    return out


def consistent(m):
    """the assumptions on sizes and parameters hold in the model"""
    k = m
    if m.hyp:
        k = m.variant(0)
        k.hyp, k.dims, k.syms = None, dict(m.dims), dict(m.syms)
        for leaf, v in m.hyp.items():
            (k.dims if leaf.kind == 'dim' else k.syms)[leaf.args[0]] = v
    for f, s in T.FACTS.items():
        if any(a.kind not in ('dim', 'sym') for mo, c in f.t for a, e in mo):
            continue
        try:
            v = k.ev(f, {})
        except (Skip, Unknown):
            continue
        v = 0.0 if abs(v) < 1e-9 else v
        if not {'+': v > 0, '-': v < 0, '0': v == 0, '>=': v >= 0, '<=': v <= 0}.get(s, True):
            return False
    return True


def gate_models(p, q, base, guard=None):
    """models on either side of the thresholds which branch conditions of the terms put on sizes and scalar parameters"""
    seen, prods = {}, {}
    st = set()
    for t in (p, q) if guard is None else (p, q, guard):
        for a in T.walk(t, st):
            if a.kind in ('gt', 'ge', 'eq') or a.kind == 'fn' and a.args[0] in ('pos', 'abs', 'sign') and len(a.args) == 2:
                g = gate(a)
                if g is not None and not (a.kind == 'fn' and g[0].kind == 'dim' and -g[2] / g[1] > 8):
                    seen.setdefault((g[0].kind, g[0].args[0]), []).append((g[0], -g[2] / g[1]))
                elif g is None:
                    g = gate2(a)
                    if g is not None:
                        prods[(g[0], -g[2] / g[1])] = 1
    out, single, pairs = [], [], []
    for mono, t in list(prods)[:MAXGATES]:
        if t > 0:
            out += gate2_models(mono, t, base, len(out))
    for (kind, n), l in sorted(seen.items()):
        for leaf, t in sorted(set(l), key=lambda z: z[1])[:MAXGATES]:
            if kind == 'dim':
                if n in ('A', 'R') or not str(n)[:1] in 'MNBd':
                    continue
                for v in (math.floor(t) - 1, math.floor(t), math.floor(t) + 1, math.ceil(t) + 1):
                    if v < 1:
                        continue
                    m = base.variant(len(out) + 1)
                    if v > 9:
                        m.hyp = {leaf: v}
                    else:
                        m.dims = dict(m.dims)
                        m.dims[n] = v
                        if n == 'N' and m.dims['B'] > v or n == 'M' and m.dims['A'] > v:
                            m.dims['B' if n == 'N' else 'A'] = v
                        if n == 'B' and m.dims['N'] < v:
                            m.dims['N'] = v
                        if abs(v - t) <= 1:
                            single.append(((kind, n), v))
                    out.append(m)
            elif n not in base.syms and n not in ('inf', 'pi', 'e', 'nan') and not unknown_name(n):
                d = 1.0 if n in T.INT_SYMS else 0.3 * abs(t) + 0.01
                for v in (t - d, t, t + d):
                    if v < 0 and (n in T.SYM_NONNEG or n in T.SYM_POS) or v == 0 and n in T.SYM_POS or n in T.INT_SYMS and v != int(v):
                        continue
                    m = base.variant(len(out) + 1)
                    m.syms = dict(m.syms)
                    m.syms[n] = v
                    out.append(m)
                    single.append(((kind, n), v))
    # conditions on two of them at once
    for i, a in enumerate(single):
        for b in single[i + 1:]:
            if a[0] == b[0] or len(pairs) >= MAXPAIRS:
                continue
            m = base.variant(len(out) + len(pairs) + 1)
            m.dims, m.syms = dict(m.dims), dict(m.syms)
            for (kind, n), v in (a, b):
                (m.dims if kind == 'dim' else m.syms)[n] = v
            m.dims['B'], m.dims['A'] = min(m.dims['B'], m.dims['N']), min(m.dims['A'], m.dims['M'])
            if consistent(m):
                pairs.append(m)
    return [m for m in out if consistent(m)] + pairs


def compare(p, q, exts=None, models=None, npoints=6, nmodels=4, guard=None):
    """Verdict: eq True (normal form / random interpretation), False (separated) or None (no valid sample)"""
    if p is None or q is None:
        return Verdict(None, 'unknown')
    if p is q:
        return Verdict(True, 'normal-form')
    try:
        if T.equal(p, q):
            return Verdict(True, 'normal-form')
    except (RecursionError, T.Blowup):
        pass
    exts = exts or {}
    models = models or [Model(s) for s in range(nmodels)] + [Scaled(70, 2e-3), Scaled(71, 30.0)]
    valid = work = 0
    fvs = free_vars(p, q) if guard is None else free_vars(p, q, guard)
    models = list(models) + gate_models(p, q, models[0], guard)
    queue = list(enumerate(models))
    for mi, mo in queue:
        for env in points(mo, fvs, exts, npoints, mi, guard):
            try:
                a = mo.ev(p, env)
            except Skip:
                a = None
            try:
                b = mo.ev(q, env)
            except Skip:
                b = None
            if a is None or b is None or a != a or b != b:
                continue
            valid += 1
            if not close(a, b):
                return Verdict(False, 'separated', 'model %d at %s: %.6g vs %.6g' % (
                    mi, {T.show_atom(v): x for v, x in env.items()}, a, b), valid)
        work += len(mo.memo)
        mo2 = mo.variant(len(models)) if mi + len(models) < MOREMODELS and work < MOREWORK else None
        if mo2 is not None:                    # cheap terms are evaluated in further models of the same kind
            queue.append((mi + len(models), mo2))
    if valid < 3:
        return Verdict(None, 'no-sample', n=valid)
    return Verdict(True, 'random-interpretation', n=valid)


def shape_exts(shape):
    from .interp import shape_vars
    out = {}
    for vs, d in zip(shape_vars(shape), shape):
        for v, e in zip(vs, d):
            out[v] = e
    return out
