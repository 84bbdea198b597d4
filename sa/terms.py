"""Hash-consed value-number terms in polynomial normal form (index notation).

A term (``Poly``) is a sum of monomials with rational coefficients over *atoms*.
Array values are described element-wise: an atom ``arr(name, i, j, ..)`` is the
element of a named array at symbolic index terms, reductions are binder atoms.
Two program expressions that compute the same value by ring laws, by the
exp/log laws, by re-association, by renaming of bound indices, by masking
identities etc. get the same (identical, hash-consed) term.
"""
from fractions import Fraction as Fr
from itertools import permutations
import math

MAXTERMS = 6000


class Blowup(Exception):
    pass


class Atom:
    __slots__ = ('kind', 'args', 'uid', 'fv', 'ht', '_enums', '__weakref__')

    def __repr__(self):
        return show_atom(self)


class Poly:
    __slots__ = ('t', 'uid', 'fv', 'ht', '__weakref__')

    def __repr__(self):
        return show(self)

    # convenience operators
    def __add__(a, b): return add(a, P(b))
    def __radd__(a, b): return add(P(b), a)
    def __sub__(a, b): return sub(a, P(b))
    def __rsub__(a, b): return sub(P(b), a)
    def __mul__(a, b): return mul(a, P(b))
    def __rmul__(a, b): return mul(P(b), a)
    def __neg__(a): return neg(a)
    def __truediv__(a, b): return mul(a, power(P(b), -1))
    def __rtruediv__(a, b): return mul(P(b), power(a, -1))


_atoms = {}
_polys = {}
_uid = [0]
_E = frozenset()

# ---------------------------------------------------------------- properties
SYM_NONNEG = set()       # names of non-negative symbols
SYM_POS = set()          # names of positive symbols
ARR_PROP = {}            # array name -> set of {'ind','nonneg','int'}
FACTS = {}               # Poly (normalised) -> '+', '0', '-'   (config specific)
PATH = []                # pinned condition atoms (value) in the current branch: {atom: 0/1}


def _nx():
    _uid[0] += 1
    return _uid[0]


def _scan(x):
    """free vars and height of an argument structure"""
    if isinstance(x, (Poly, Atom)):
        return x.fv, x.ht
    if isinstance(x, tuple):
        fv, ht = _E, 0
        for y in x:
            f, h = _scan(y)
            if f:
                fv = fv | f
            if h > ht:
                ht = h
        return fv, ht
    return _E, 0


def raw(kind, *args):
    key = (kind, args)
    a = _atoms.get(key)
    if a is None:
        a = Atom()
        a.kind, a.args = kind, args
        a.uid = _nx()
        a._enums = None
        if kind in ('ix', 'bv'):
            a.fv, a.ht = frozenset([a]), 0
        elif kind == 'B':
            fv, ht = _scan(args)
            lv = range(args[4] + 1, args[4] + 1 + len(args[1]))
            bound = [raw('bv', l) for l in lv]
            fvb, _ = _scan(args[2])
            fvo, _ = _scan((args[1], args[3]))
            a.fv = (fvb - frozenset(bound)) | fvo
            a.ht = max(ht, args[4] + len(args[1]))
        else:
            a.fv, a.ht = _scan(args)
        _atoms[key] = a
    return a


def _mk(t):
    p = _polys.get(t)
    if p is None:
        p = Poly()
        p.t = t
        p.uid = _nx()
        fv, ht = _E, 0
        for m, _ in t:
            for a, _e in m:
                if a.fv:
                    fv = fv | a.fv
                if a.ht > ht:
                    ht = a.ht
        p.fv, p.ht = fv, ht
        _polys[t] = p
    return p


def _mkey(m):
    return tuple((a.uid, e) for a, e in m)


def from_dict(d):
    return _mk(tuple(sorted(((m, c) for m, c in d.items() if c), key=lambda mc: _mkey(mc[0]))))


def const(c):
    if isinstance(c, bool):
        c = int(c)
    if isinstance(c, float):
        if c != c:
            return atom(raw('sym', 'nan'))
        if c == math.inf:
            return INF
        if c == -math.inf:
            return neg(INF)
        c = Fr(repr(c))
    c = Fr(c)
    return _mk((((), c),)) if c else ZERO


ZERO = _mk(())
ONE = _mk((((), Fr(1)),))


def atom(a):
    return _mk(((((a, Fr(1)),), Fr(1)),))


INF = atom(raw('sym', 'inf'))
PI = atom(raw('sym', 'pi'))
EUL = atom(raw('sym', 'e'))
SYM_POS |= {'pi', 'e', 'inf'}
SYM_NONNEG |= {'pi', 'e', 'inf'}


def P(x):
    if isinstance(x, Poly):
        return x
    if isinstance(x, Atom):
        return atom(x)
    return const(x)


def is_const(p):
    return not p.t or (len(p.t) == 1 and p.t[0][0] == ())


def cval(p):
    return p.t[0][1] if p.t else Fr(0)


def single_atom(p):
    """the atom if p is exactly 1*atom^1"""
    if len(p.t) == 1 and p.t[0][1] == 1 and len(p.t[0][0]) == 1 and p.t[0][0][0][1] == 1:
        return p.t[0][0][0][0]
    return None


def ix(name):
    return raw('ix', name)


def sym(name):
    return atom(raw('sym', name))


def dim(name):
    return atom(raw('dim', name))


_tv = [0]


def fresh():
    _tv[0] += 1
    return raw('ix', ('t', _tv[0]))


# --------------------------------------------------------------- ring algebra
def add(a, b):
    if not a.t:
        return b
    if not b.t:
        return a
    d = dict(a.t)
    for m, c in b.t:
        v = d.get(m, 0) + c
        if v:
            d[m] = v
        else:
            d.pop(m, None)
    return from_dict(d)


def neg(a):
    return _mk(tuple((m, -c) for m, c in a.t))


def sub(a, b):
    return add(a, neg(b))


def scale(a, c):
    c = Fr(c)
    if not c:
        return ZERO
    return _mk(tuple((m, k * c) for m, k in a.t))


IND = ('gt', 'ge', 'eq')


def is_ind_atom(a):
    if a.kind in IND:
        return True
    if a.kind == 'arr':
        return 'ind' in ARR_PROP.get(a.args[0], ())
    if a.kind == 'B':
        return a.args[0] in ('any',)
    if a.kind == 'fn':
        return a.args[0] in ('isclose0', 'inbatch', 'isnan')
    if a.kind == 'sym':
        return isinstance(a.args[0], str) and a.args[0].startswith('?b')
    return False


def is_count(p, ext):
    """p counts indices of an axis of the given length"""
    a = single_atom(p)
    if a is None or a.kind != 'B' or a.args[0] != 'sum' or len(a.args[1]) != 1 or a.args[1][0] != ext:
        return False
    _, (b,) = open_binder(a)
    return len(b.t) == 1 and b.t[0][1] == 1 and all(is_ind_atom(f) for f, _ in b.t[0][0])


def nonneg_atom(a):
    k = a.kind
    if is_ind_atom(a):
        return True
    if k in ('dim', 'ix', 'num', 'bv'):
        return True
    if k == 'sym':
        return a.args[0] in SYM_NONNEG
    if k == 'arr':
        return 'nonneg' in ARR_PROP.get(a.args[0], ())
    if k == 'fn':
        return a.args[0] in ('exp', 'abs', 'pos', 'l0', 'rank', 'inbatch', 'binv')
    if k == 'B':
        if a.args[0] == 'sum':
            return all(nonneg_mono(m, c) for m, c in a.args[2][0].t)
        return a.args[0] in ('enum', 'enumj', 'rank', 'argmax')
    if k == 'P':
        return all(nonneg_mono(m, c) for m, c in a.args[0].t)
    return False


def pos_atom(a):
    k = a.kind
    if k == 'dim':
        return not (isinstance(a.args[0], str) and a.args[0].startswith('?'))
    if k == 'num':
        return True
    if k == 'sym':
        return a.args[0] in SYM_POS
    if k == 'fn':
        return a.args[0] == 'exp'
    if k == 'B' and a.args[0] == 'sum':
        return all(pos_mono(m, c) for m, c in a.args[2][0].t) and bool(a.args[2][0].t)
    if k == 'P':
        return all(nonneg_mono(m, c) for m, c in a.args[0].t) and any(pos_mono(m, c) for m, c in a.args[0].t)
    return False


def nonneg_mono(m, c):
    if c < 0:
        return False
    for a, e in m:
        if e.denominator == 1 and e.numerator % 2 == 0:
            continue
        if e.denominator % 2 == 0:
            continue
        if not nonneg_atom(a):
            return False
    return True


def pos_mono(m, c):
    return c > 0 and all(pos_atom(a) for a, e in m)


def nonneg(p):
    return all(nonneg_mono(m, c) for m, c in p.t)


def sign_of(p):
    """'+','0','-','>=','<=',None"""
    if not p.t:
        return '0'
    if is_const(p):
        return '+' if cval(p) > 0 else '-'
    if p in FACTS:
        return FACTS[p]
    n = neg(p)
    if n in FACTS:
        return {'+': '-', '-': '+', '0': '0', '>=': '<=', '<=': '>='}[FACTS[n]]
    # fold facts "a-b>0" scaled by positive rationals
    lc = abs(p.t[0][1])
    if lc != 1:
        q = scale(p, 1 / lc)
        if q in FACTS or neg(q) in FACTS:
            return sign_of(q)
    if nonneg(p):
        return '+' if any(pos_mono(m, c) for m, c in p.t) else '>='
    if nonneg(n):
        return '-' if any(pos_mono(m, c) for m, c in n.t) else '<='
    # integer-like: dims >= 1
    if _dims_only(p):
        s = _dim_sign(p)
        if s:
            return s
    return None


def _dims_only(p):
    return all(all(a.kind in ('dim',) and e == 1 for a, e in m) and len(m) <= 1 for m, c in p.t)


def _dim_sign(p):
    # p = c0 + sum ci * dim_i, dims >= 1, all ci > 0 -> lower bound
    lo = Fr(0)
    ok = True
    for m, c in p.t:
        if m and c < 0:
            ok = False
        lo += c
    if ok:
        if lo > 0:
            return '+'
        if lo >= 0:
            return '>='
    lo = Fr(0)
    ok = True
    for m, c in p.t:
        if m and c > 0:
            ok = False
        lo += c
    if ok:
        if lo < 0:
            return '-'
        if lo <= 0:
            return '<='
    return None


def _norm_mono(fac):
    """fac: dict atom->exp.  returns (coef, mono, extra_polys) where extra polys must be multiplied in"""
    coef = Fr(1)
    extra = []
    out = {}
    expo = None
    for a, e in fac.items():
        if e == 0:
            continue
        k = a.kind
        if k == 'fn' and a.args[0] == 'exp':
            q = scale(a.args[1], e)
            expo = q if expo is None else add(expo, q)
            continue
        if e > 0 and is_ind_atom(a):
            out[a] = Fr(1)
            continue
        if k == 'P' and e >= 1:
            n = e.numerator // e.denominator
            extra.append(_pow_int(a.args[0], n))
            r = e - n
            if r:
                out[a] = r
            continue
        if k == 'fn' and a.args[0] == 'abs' and e.denominator == 1 and e.numerator % 2 == 0:
            extra.append(power(a.args[1], e))
            continue
        if k == 'fn' and a.args[0] == 'sign' and e.denominator == 1:
            # sign^k : sign^odd = sign, sign^even = 1 - [p==0]
            if e.numerator % 2:
                out[a] = Fr(1)
            else:
                extra.append(sub(ONE, ind_eq(a.args[1])))
            continue
        if k == 'num':
            n = e.numerator // e.denominator
            coef *= a.args[0] ** n
            r = e - n
            if r:
                out[a] = r
            continue
        if k == 'sym' and a.args[0] == 'inf' and e > 0:
            out[a] = Fr(1)
            continue
        out[a] = e
    if expo is not None and expo.t:
        if is_const(expo) and False:
            pass
        ea = exp(expo)
        if len(ea.t) == 1 and len(ea.t[0][0]) == 1 and ea.t[0][0][0][0].kind == 'fn' and ea.t[0][1] == 1:
            a = ea.t[0][0][0][0]
            out[a] = ea.t[0][0][0][1]
        else:
            extra.append(ea)
    # indicator interactions
    inds = [a for a in out if is_ind_atom(a)]
    if len(inds) > 1:
        z = _ind_rules(out, inds)
        if z is None:
            return Fr(0), (), []
    return coef, tuple(sorted(out.items(), key=lambda ae: ae[0].uid)), extra


def _ind_rules(out, inds):
    S = set(inds)
    for a in inds:
        if a not in out:
            continue
        if a.kind == 'gt':
            if raw('eq', a.args[0]) in S:
                return None
            g = raw('ge', a.args[0])
            if g in S:
                out.pop(g, None)
        elif a.kind == 'eq':
            g = raw('ge', a.args[0])
            if g in S:
                out.pop(g, None)
        elif a.kind == 'B' and a.args[0] == 'any':
            if any_absorbed(a, S):
                out.pop(a, None)
    return True


def any_absorbed(a, S):
    """any_v body(v) multiplied with an instance of body -> 1"""
    body = a.args[2][0]
    lvl = a.args[4]
    bvs = [raw('bv', lvl + 1 + i) for i in range(len(a.args[1]))]
    cands = [b for b in S if b is not a]
    if len(body.t) != 1:
        return False
    pats = [f for f, e in body.t[0][0]]
    if body.t[0][1] != 1 or len(bvs) != 1:
        return False
    v = bvs[0]
    for b in cands:
        for c in index_candidates(b):
            ok = True
            for f in pats:
                inst = subst(atom(f), {v: c})
                if inst is ONE:
                    continue
                ia = single_atom(inst)
                if ia is None or ia not in S:
                    ok = False
                    break
            if ok:
                return True
    return False


def index_candidates(a):
    out = []
    seen = set()

    def rec(x, top):
        if isinstance(x, Poly):
            sa = single_atom(x)
            if sa is not None and (sa.kind in ('ix', 'bv') or (sa.kind == 'B' and sa.args[0] == 'enum') or sa.kind == 'arr'):
                if x not in seen:
                    seen.add(x)
                    out.append(x)
            for m, c in x.t:
                for f, e in m:
                    rec(f, False)
        elif isinstance(x, Atom):
            if x.kind in ('ix', 'bv'):
                p = atom(x)
                if p not in seen:
                    seen.add(p)
                    out.append(p)
            else:
                for y in x.args:
                    rec(y, False)
        elif isinstance(x, tuple):
            for y in x:
                rec(y, False)
    rec(a, True)
    return out


def mul(a, b):
    if not a.t or not b.t:
        return ZERO
    if is_const(a):
        return scale(b, cval(a))
    if is_const(b):
        return scale(a, cval(b))
    if len(a.t) * len(b.t) > MAXTERMS:
        raise Blowup()
    d = {}
    acc = []
    for m1, c1 in a.t:
        for m2, c2 in b.t:
            fac = dict(m1)
            for f, e in m2:
                fac[f] = fac.get(f, 0) + e
            k, m, extra = _norm_mono(fac)
            c = c1 * c2 * k
            if not c:
                continue
            if extra:
                p = _mk(((m, c),))
                for q in extra:
                    p = mul(p, q)
                acc.append(p)
            else:
                v = d.get(m, 0) + c
                if v:
                    d[m] = v
                else:
                    d.pop(m, None)
    r = from_dict(d)
    for p in acc:
        r = add(r, p)
    return r


_powmemo = {}


def _pow_int(p, n):
    if n == 0:
        return ONE
    if n == 1:
        return p
    k = (p, n)
    if k in _powmemo:
        return _powmemo[k]
    h = _pow_int(p, n // 2)
    r = mul(h, h)
    if n % 2:
        r = mul(r, p)
    _powmemo[k] = r
    return r


def content(p, nonneg_only=False):
    """(coef, mono) common factor of a multi-term poly"""
    g = dict(p.t[0][0])
    for m, c in p.t[1:]:
        d = dict(m)
        for a in list(g):
            if a in d:
                e1, e2 = g[a], d[a]
                if e1 != e2:
                    g[a] = min(e1, e2)
            else:
                if g[a] < 0:
                    pass
                    # negative exponent vs absent(0): min is the negative one
                else:
                    del g[a]
        for a, e in m:
            if a not in g and e < 0 :
                # absent elsewhere means exponent 0 -> min negative
                if all(True for _ in [0]):
                    g[a] = e
    # fix: factors with negative exponents must be min over all (absent = 0)
    out = {}
    for a in g:
        es = [dict(m).get(a, Fr(0)) for m, c in p.t]
        e = min(es)
        if e != 0:
            out[a] = e
    # common exponential part: monomials of the exponents shared by all
    exps = []
    for m, c in p.t:
        ea = [a for a, e in m if a.kind == 'fn' and a.args[0] == 'exp']
        exps.append(dict(ea[0].args[1].t) if ea else {})
    out = {a: e for a, e in out.items() if not (a.kind == 'fn' and a.args[0] == 'exp')}
    if all(exps):
        common = {m: c for m, c in exps[0].items() if all(x.get(m) == c for x in exps[1:])}
        if common:
            ea = exp(from_dict(common))
            sa = single_atom(ea)
            if sa is not None:
                out[sa] = Fr(1)
    if nonneg_only:
        out = {a: e for a, e in out.items() if nonneg_atom(a)}
    lc = p.t[0][1]
    return lc, out


def power(p, e):
    """p ** e; e is a number or a Poly"""
    if isinstance(e, Poly):
        if is_const(e):
            e = cval(e)
        else:
            return _pow_sym(p, e)
    e = Fr(e)
    if e == 0:
        return ONE
    if e == 1:
        return p
    if not p.t:
        return ZERO if e > 0 else INF
    if is_const(p):
        c = cval(p)
        if e.denominator == 1:
            return const(c ** e.numerator)
        if c > 0:
            return _numpow(c, e)
        return atom(raw('fn', 'pow', p, const(e)))
    if len(p.t) == 1:
        m, c = p.t[0]
        if e.denominator != 1 and c < 0:
            return atom_pow(p, e)
        fac = {}
        r = ONE
        for a, k in m:
            if e.denominator % 2 == 0 and k.denominator == 1 and k.numerator % 2 == 0 and not nonneg_atom(a):
                r = mul(r, _mono_pow(abs_(atom(a)), k * e))
            else:
                fac[a] = k * e
        kf, mm, extra = _norm_mono(fac)
        r = mul(r, _mk(((mm, kf),)) if kf else ZERO)
        for q in extra:
            r = mul(r, q)
        cc = const(c ** e.numerator) if e.denominator == 1 else _numpow(c, e)
        return mul(cc, r)
    if e.denominator == 1 and e > 0:
        if len(p.t) ** min(e.numerator, 6) <= 40000 and e <= 12:
            try:
                return _pow_int(p, e.numerator)
            except Blowup:
                pass
        return atom_pow(p, e)
    if ind_poly(p):
        return p if e > 0 else atom_pow(p, e)
    return atom_pow(p, e)


def _mono_pow(p, e):
    return power(p, e)


def _numpow(c, e):
    # c>0 rational, e rational non integer:  num^e, split numerator/denominator
    out = ONE
    for base, s in ((c.numerator, 1), (c.denominator, -1)):
        if base == 1:
            continue
        n = base
        k = Fr(1)
        # perfect power reduction
        for r in (2, 3, 4, 5):
            while True:
                q = round(n ** (1.0 / r))
                if q > 1 and q ** r == n:
                    n = q
                    k *= r
                else:
                    break
        ee = e * k * s
        ip = ee.numerator // ee.denominator
        fr_ = ee - ip
        t = const(Fr(n) ** ip)
        if fr_:
            t = mul(t, _mk(((((raw('num', Fr(n)), fr_),), Fr(1)),)))
        out = mul(out, t)
    return out


def atom_pow(p, e):
    if len(p.t) > 1:
        lc, g = content(p, nonneg_only=(e.denominator != 1))
        c = lc if e.denominator == 1 else abs(lc)
        out = ONE
        if g or c != 1:
            inv = _mk(((_sorted({a: -x for a, x in g.items()}), Fr(1) / c),))
            q = mul(p, inv)
            if q is not p:
                out = power(_mk(((_sorted(g), c),)), e)
                if len(q.t) <= 1 or is_const(q):
                    return mul(out, power(q, e))
                p = q
        return mul(out, _mk(((((raw('P', p), e),), Fr(1)),)))
    return _mk(((((raw('P', p), e),), Fr(1)),))


def _sorted(d):
    return tuple(sorted(((a, e) for a, e in d.items() if e), key=lambda ae: ae[0].uid))


def _pow_sym(p, e):
    if is_const(p) and cval(p) == 1:
        return ONE
    c0 = ZERO
    rest = e
    for m, c in e.t:
        if m == ():
            c0 = const(c)
            rest = sub(e, c0)
    a = atom(raw('fn', 'powA', p, rest))
    if c0.t and cval(c0).denominator == 1:
        return mul(a, power(p, cval(c0)))
    if c0.t:
        return atom(raw('fn', 'powA', p, e))
    return a


def div(a, b):
    return mul(a, power(b, -1))


def sqrt(p):
    return power(p, Fr(1, 2))


# --------------------------------------------------------------- functions
def lead_neg(p):
    return bool(p.t) and p.t[0][1] < 0


def fn(name, *args):
    f = FN.get(name)
    if f:
        return f(*args)
    return atom(raw('fn', name, *args))


def exp(p):
    if not p.t:
        return ONE
    out = ONE
    rest = {}
    for m, c in p.t:
        if len(m) == 1 and m[0][1] == 1 and m[0][0].kind == 'fn' and m[0][0].args[0] == 'log':
            out = mul(out, power(m[0][0].args[1], c))
        else:
            rest[m] = c
    if rest:
        if set(rest) == {((raw('sym', 'inf'), Fr(1)),)}:
            v = list(rest.values())[0]
            return INF if v > 0 else ZERO
        a = raw('fn', 'exp', from_dict(rest))
        ea = _mk(((((a, Fr(1)),), Fr(1)),))
        if out is ONE:
            return ea
        return mul(out, ea)
    return out


def log(p):
    if p is ONE:
        return ZERO
    if len(p.t) == 1:
        m, c = p.t[0]
        if c > 0 and (len(m) > 1 or c != 1 or (m and m[0][1] != 1) or (m and m[0][0].kind == 'fn' and m[0][0].args[0] == 'exp')):
            out = ZERO
            if c != 1:
                out = atom(raw('fn', 'log', const(c)))
            for a, e in m:
                if a.kind == 'fn' and a.args[0] == 'exp':
                    out = add(out, scale(a.args[1], e))
                elif a.kind == 'P':
                    out = add(out, scale(log(a.args[0]), e))
                elif e.denominator == 1 and e.numerator % 2 == 0 and not nonneg_atom(a):
                    out = add(out, scale(atom(raw('fn', 'log', abs_(atom(a)))), e))
                else:
                    out = add(out, scale(atom(raw('fn', 'log', atom(a))), e))
            return out
    elif len(p.t) > 1:
        lc, g = content(p, nonneg_only=True)
        if g:
            inv = _mk(((_sorted({a: -x for a, x in g.items()}), Fr(1)),))
            q = mul(p, inv)
            if len(q.t) < len(p.t) or q is not p:
                mono = _mk(((_sorted(g), Fr(1)),))
                return add(log(mono), atom(raw('fn', 'log', q)))
    return atom(raw('fn', 'log', p))


def abs_(p):
    if not p.t:
        return ZERO
    if nonneg(p):
        return p
    if nonneg(neg(p)):
        return neg(p)
    s = sign_of(p)
    if s in ('+', '>='):
        return p
    if s in ('-', '<='):
        return neg(p)
    if len(p.t) == 1:
        m, c = p.t[0]
        if len(m) > 1 or c != 1 or m[0][1] != 1:
            out = const(abs(c))
            for a, e in m:
                if nonneg_atom(a) or e.denominator % 2 == 0 or (e.denominator == 1 and e.numerator % 2 == 0):
                    out = mul(out, _mk(((((a, e),), Fr(1)),)))
                else:
                    out = mul(out, power(abs_(atom(a)), e))
            return out
        a = m[0][0]
        if a.kind == 'fn' and a.args[0] == 'abs':
            return p
    elif lead_neg(p):
        return abs_(neg(p))
    return atom(raw('fn', 'abs', p))


def sign(p):
    if not p.t:
        return ZERO
    s = sign_of(p)
    if s == '+':
        return ONE
    if s == '-':
        return const(-1)
    if len(p.t) == 1:
        m, c = p.t[0]
        if c != 1 or len(m) > 1:
            out = const(1 if c > 0 else -1)
            for a, e in m:
                if pos_atom(a) or e.denominator % 2 == 0:
                    continue
                out = mul(out, sign(atom(a)) if (e.denominator == 1 and e.numerator % 2) else sub(ONE, ind_eq(atom(a))))
            return out
    elif lead_neg(p):
        return neg(sign(neg(p)))
    return atom(raw('fn', 'sign', p))


def _even(name):
    def f(p):
        if not p.t:
            return {'cos': ONE}[name]
        if lead_neg(p):
            p = neg(p)
        return atom(raw('fn', name, p))
    return f


def _odd(name):
    def f(p):
        if not p.t:
            return ZERO
        if lead_neg(p):
            return neg(f(neg(p)))
        return atom(raw('fn', name, p))
    return f


def pos(p):
    """max(p,0)"""
    s = sign_of(p)
    if s in ('+', '0', '>='):
        return p
    if s in ('-', '<='):
        return ZERO
    lc = p.t[0][1]
    if lc < 0:
        return add(p, pos(neg(p)))
    if lc != 1:
        return scale(pos(scale(p, 1 / lc)), lc)
    return atom(raw('fn', 'pos', p))


def maximum(a, b):
    if a is b:
        return a
    if a is INF or b is INF:
        return INF
    if a is neg(INF):
        return b
    if b is neg(INF):
        return a
    return add(a, pos(sub(b, a)))


def minimum(a, b):
    return neg(maximum(neg(a), neg(b)))


def nan2num(p, *a):
    if is_const(p):
        return p
    return atom(raw('fn', 'nan2num', p, *a))


def floor(p):
    if is_const(p):
        return const(math.floor(cval(p)))
    return atom(raw('fn', 'floor', p))


def mod(a, b):
    if is_const(a) and is_const(b) and b.t:
        x, y = cval(a), cval(b)
        return const(x - y * math.floor(x / y))
    if b is ONE and is_int(a):
        return ZERO
    if a is b:
        return ZERO
    return atom(raw('fn', 'mod', a, b))


def floordiv(a, b):
    if is_const(a) and is_const(b) and b.t:
        return const(math.floor(cval(a) / cval(b)))
    if b is ONE and is_int(a):
        return a
    if len(b.t) == 1 and is_int(a):
        q = mul(a, power(b, -1))
        if is_int(q) and all(all(e > 0 for x, e in m) for m, c in q.t):
            return q
    return atom(raw('fn', 'floordiv', a, b))


INT_SYMS = set()


def is_int(p):
    for m, c in p.t:
        if c.denominator != 1:
            return False
        for a, e in m:
            if e.denominator != 1 or e < 0:
                return False
            if a.kind in ('dim', 'ix', 'bv') or is_ind_atom(a):
                continue
            if a.kind == 'sym' and a.args[0] in INT_SYMS:
                continue
            if a.kind == 'arr' and 'int' in ARR_PROP.get(a.args[0], ()):
                continue
            if a.kind == 'fn' and a.args[0] in ('floor', 'mod', 'floordiv', 'rank', 'binv'):
                continue
            if a.kind == 'B' and a.args[0] in ('argmax', 'enum', 'rank', 'enumj'):
                continue
            if a.kind == 'B' and a.args[0] == 'sum' and is_int(a.args[2][0]):
                continue
            return False
    return True


FN = {
    'exp': exp, 'log': log, 'abs': abs_, 'sign': sign, 'pos': pos,
    'cos': _even('cos'), 'cosh': _even('cosh'), 'sin': _odd('sin'), 'tanh': _odd('tanh'), 'arctan': _odd('arctan'),
    'sinh': _odd('sinh'), 'tan': _odd('tan'), 'erf': _odd('erf'),
    'nan2num': nan2num, 'floor': floor, 'mod': mod, 'floordiv': floordiv,
}


# --------------------------------------------------------------- indicators
def ind_poly(p):
    """is p known 0/1 valued (syntactically)?"""
    if p is ZERO or p is ONE:
        return True
    if len(p.t) == 1:
        m, c = p.t[0]
        return c == 1 and all(is_ind_atom(a) for a, e in m)
    # all monomials are products of indicators: assume boolean combination
    return all(all(is_ind_atom(a) for a, e in m) and c.denominator == 1 for m, c in p.t)


def _norm_ind(kind, p):
    a = raw(kind, p)
    r = enum_rule(a)
    if r is not None:
        return r
    return atom(a)


def ind_gt(p):
    """[p > 0]"""
    s = sign_of(p)
    if s == '+':
        return ONE
    if s in ('0', '-', '<='):
        return ZERO
    p2 = _strip_positive(p)
    if p2 is not p:
        return ind_gt(p2)
    r = _ind_of_indsum(p)
    if r is not None:
        return r[0]
    lc = p.t[0][1]
    if lc < 0:
        return sub(ONE, ind_ge(neg(p)))
    if lc != 1:
        p = scale(p, 1 / lc)
    if is_int(p) and False:
        pass
    b = _inf_cmp(p)
    if b is not None:
        return b
    if len(p.t) == 1:
        sa = single_atom(p)
        if sa is not None and sa.kind == 'B' and sa.args[0] == 'sum' and ind_poly(sa.args[2][0]):
            return _any_from_sum(sa)
    return _norm_ind('gt', p)


def ind_ge(p):
    """[p >= 0]"""
    s = sign_of(p)
    if s in ('+', '0', '>='):
        return ONE
    if s == '-':
        return ZERO
    p2 = _strip_positive(p)
    if p2 is not p:
        return ind_ge(p2)
    r = _ind_of_indsum_ge(p)
    if r is not None:
        return r
    if is_int(p):
        # integers: p >= 0  <=>  p + 1 > 0 ; canonical: gt
        return ind_gt(add(p, ONE))
    lc = p.t[0][1]
    if lc < 0:
        return sub(ONE, ind_gt(neg(p)))
    if lc != 1:
        p = scale(p, 1 / lc)
    b = _inf_cmp(p)
    if b is not None:
        return b
    return _norm_ind('ge', p)


def _inf_cmp(p):
    i = raw('sym', 'inf')
    for m, c in p.t:
        if len(m) == 1 and m[0][0] is i and m[0][1] == 1 and len(p.t) > 1:
            # [inf - q > 0]: symbolic, keep
            return None
    return None


def ind_eq(p):
    """[p == 0]"""
    s = sign_of(p)
    if s == '0':
        return ONE
    if s in ('+', '-'):
        return ZERO
    if p.t[0][1] != 1:
        p = scale(p, 1 / p.t[0][1])
    r = _ind_of_indsum(p)
    if r is not None:
        return r[1]
    if len(p.t) == 1:
        m, c = p.t[0]
        if len(m) == 1 and m[0][1] > 0 and m[0][1] != 1:
            return ind_eq(atom(m[0][0]))
        sa = single_atom(p)
        if sa is not None and sa.kind == 'B' and sa.args[0] == 'sum' and ind_poly(sa.args[2][0]):
            return sub(ONE, _any_from_sum(sa))
    if len(p.t) >= 2 and is_int(p):
        # distinct integer constants in index comparison: i - j with both consts handled by sign_of
        pass
    return _norm_ind('eq', p)


def _strip_positive(p):
    """divide by common positive factor"""
    if len(p.t) < 1 or is_const(p):
        return p
    lc, g = content(p) if len(p.t) > 1 else (p.t[0][1], dict(p.t[0][0]))
    g = {a: e for a, e in g.items() if pos_atom(a)}
    if not g:
        return p
    inv = _mk(((_sorted({a: -x for a, x in g.items()}), Fr(1)),))
    q = mul(p, inv)
    return q


def _ind_of_indsum(p):
    """p = sum_i c_i * I_i (+ const) with I_i indicator monomials -> (gt, eq) by truth-table on few indicators"""
    atoms_ = set()
    for m, c in p.t:
        for a, e in m:
            if not is_ind_atom(a):
                return None
            atoms_.add(a)
    if not atoms_ or len(atoms_) > 4:
        if not atoms_:
            return None
        # many: only the all-nonneg case without constants
        if all(c > 0 and m for m, c in p.t):
            eqp = ONE
            for m, c in p.t:
                eqp = mul(eqp, sub(ONE, _mk(((m, Fr(1)),))))
            return sub(ONE, eqp), eqp
        return None
    A = sorted(atoms_, key=lambda a: a.uid)
    gt = eq = ZERO
    n = len(A)
    for bits in range(1 << n):
        val = Fr(0)
        for m, c in p.t:
            if all((bits >> A.index(a)) & 1 for a, e in m):
                val += c
        if val > 0 or val == 0:
            term = ONE
            for i, a in enumerate(A):
                term = mul(term, atom(a) if (bits >> i) & 1 else sub(ONE, atom(a)))
            if val > 0:
                gt = add(gt, term)
            else:
                eq = add(eq, term)
    return gt, eq


def _ind_of_indsum_ge(p):
    r = _ind_of_indsum(p)
    if r is None:
        return None
    return add(r[0], r[1])


def _any_from_sum(sa):
    op, exts, bodies, outs, lvl = sa.args
    vs = [fresh() for _ in exts]
    body = subst(bodies[0], {raw('bv', lvl + 1 + i): atom(v) for i, v in enumerate(vs)})
    return any_(list(zip(vs, exts)), body)


def not_(p):
    return sub(ONE, p)


def and_(a, b):
    return mul(a, b)


def or_(a, b):
    return sub(add(a, b), mul(a, b))


def truth(p):
    """indicator that p != 0"""
    if ind_poly(p):
        return p
    return sub(ONE, ind_eq(p))


# enum / rank: enumeration of a masked axis
def enum(exts, var, mask, k):
    """k-th index v (in increasing order) for which mask(v) holds"""
    if mask is ONE:
        return k
    r = mkB('enum', (exts,), (var,), (mask,), (k,))
    # enum(mask, rank(mask, m)) = m   (ranks only occur under the mask guard)
    a = single_atom(k)
    ra = single_atom(r)
    if a is not None and a.kind == 'B' and a.args[0] == 'rank' and ra is not None and ra.kind == 'B':
        if a.args[1] == ra.args[1] and a.args[2] == ra.args[2]:
            return a.args[3][0]
    return r


def rank(exts, var, mask, m):
    if mask is ONE:
        return m
    # rank(mask, enum(mask,k)) = k
    a = single_atom(m)
    r = mkB('rank', (exts,), (var,), (mask,), (m,))
    ra = single_atom(r)
    if a is not None and a.kind == 'B' and a.args[0] == 'enum' and ra is not None and ra.kind == 'B':
        if a.args[1] == ra.args[1] and a.args[2] == ra.args[2]:
            return a.args[3][0]
    return r


def enums_in(a):
    if a._enums is not None:
        return a._enums
    out = []

    def rec(x):
        if isinstance(x, Poly):
            for m, c in x.t:
                for f, e in m:
                    rec(f)
        elif isinstance(x, Atom):
            if x.kind == 'B' and x.args[0] in ('enum',):
                if x not in out:
                    out.append(x)
            for y in (x.args if x.kind != 'B' else (x.args[2], x.args[3])):
                rec(y)
        elif isinstance(x, tuple):
            for y in x:
                rec(y)
    for y in (a.args if a.kind != 'B' else (a.args[2], a.args[3])):
        rec(y)
    a._enums = tuple(out)
    return a._enums


_rawmode = [0]


def enum_rule(a):
    """indicator atom evaluated at an enumerated index of its own mask"""
    if _rawmode[0]:
        return None
    for e in enums_in(a):
        mask = e.args[2][0]
        lvl = e.args[4]
        b = raw('bv', lvl + 1)
        facts = []
        if len(mask.t) == 1 and mask.t[0][1] == 1:
            facts = [(f, ONE) for f, _ in mask.t[0][0]]
        elif len(mask.t) == 2:
            d = dict(mask.t)
            if d.get(()) == 1:
                (m2, c2), = [(m, c) for m, c in mask.t if m != ()]
                if c2 == -1 and len(m2) == 1:
                    facts = [(m2[0][0], ZERO)]
        for f, v in facts:
            if f.kind != a.kind:
                continue
            if b not in f.fv:
                continue
            _rawmode[0] += 1
            try:
                inst = subst(atom(f), {b: atom(e)})
            finally:
                _rawmode[0] -= 1
            if single_atom(inst) is a:
                return v
    return None


# --------------------------------------------------------------- arrays
def arr(name, idx):
    idx = tuple(P(i) for i in idx)
    h = ARR_RULES.get(name if isinstance(name, str) else name[0])
    if h:
        r = h(name, idx)
        if r is not None:
            return r
    if idx and 'perm' in ARR_PROP.get(name, ()):
        # perm(lead, position of n in perm(lead, .)) = n   (only occurs under the membership guard)
        la = single_atom(idx[-1])
        if la is not None and la.kind == 'fn' and la.args[0] == 'binv' and la.args[1] == name and la.args[2] == idx[:-1]:
            return la.args[3]
    a = raw('arr', name, idx)
    if 'ind' in ARR_PROP.get(name, ()):
        r = enum_rule(a)
        if r is not None:
            return r
    return atom(a)


ARR_RULES = {}


# named sub-terms: a large term gets a name, its definition is kept for later evaluation
LETMAX = [8]
LETHT = [3]
LETDEF = {}


def let(p, force=False):
    if not force and len(p.t) <= LETMAX[0] and p.ht <= LETHT[0]:
        return p
    vs = sorted(p.fv, key=lambda v: v.uid)
    cv = [ix(('l', i)) for i in range(len(vs))]
    q = subst(p, {v: atom(c) for v, c in zip(vs, cv)})
    name = ('let', q.uid)
    if name not in LETDEF:
        LETDEF[name] = (cv, q)
    pr = set()
    if nonneg(q):
        pr.add('nonneg')
    if ind_poly(q):
        pr.add('ind')
    if pr:
        ARR_PROP[name] = pr
    return arr(name, [atom(v) for v in vs])


def unlet(a):
    """definition instance of a named sub-term atom"""
    cv, q = LETDEF[a.args[0]]
    return subst(q, dict(zip(cv, a.args[1])))


def expand(p, depth=50):
    """replace all names by their definitions"""
    def f(a):
        if a.kind == 'arr' and a.args[0] in LETDEF:
            return expand(unlet(a), depth - 1)
    return replace(p, f)


# permutation-like index arrays: perm(name)[..., j]; injective in its last index
def perminv(name, lead, n):
    """position j with perm(lead, j) == n"""
    a = single_atom(n)
    if a is not None and a.kind == 'arr' and a.args[0] == name and a.args[1][:-1] == tuple(lead):
        return a.args[1][-1]
    return atom(raw('fn', 'binv', name, tuple(lead), n))


def inperm(name, lead, n, off, ext):
    a = single_atom(n)
    if a is not None and a.kind == 'arr' and a.args[0] == name and a.args[1][:-1] == tuple(lead):
        return ONE
    return atom(raw('fn', 'inbatch', name, tuple(lead), n, off, ext))


# --------------------------------------------------------------- binders
def mkB(op, exts, vars_, bodies, outs=()):
    """exts: tuple of Poly, vars_: tuple of ix atoms free in bodies."""
    L = max([b.ht for b in bodies] + [0])
    k = len(exts)
    order = list(range(k))
    sym_ops = ('sum', 'prod', 'max', 'any')
    cands = [order]
    if op in sym_ops and k > 1:
        order = sorted(order, key=lambda i: exts[i].uid)
        groups = []
        for i in order:
            if groups and exts[groups[-1][-1]] is exts[i]:
                groups[-1].append(i)
            else:
                groups.append([i])
        cands = [[]]
        for g in groups:
            if len(g) > 4:
                perms = [tuple(g)]
            else:
                perms = list(permutations(g))
            cands = [c + list(p) for c in cands for p in perms]
    best = None
    for o in cands:
        mp = {vars_[i]: atom(raw('bv', L + 1 + pos_)) for pos_, i in enumerate(o)}
        bs = tuple(subst(b, mp) for b in bodies)
        key = tuple(b.uid for b in bs)
        if best is None or key < best[0]:
            best = (key, tuple(exts[i] for i in o), bs)
    a = raw('B', op, best[1], best[2], tuple(outs), L)
    if op in ('any',):
        r = enum_rule(a)
        if r is not None:
            return r
    return atom(a)


def open_binder(a):
    op, exts, bodies, outs, lvl = a.args
    vs = [fresh() for _ in exts]
    mp = {raw('bv', lvl + 1 + i): atom(v) for i, v in enumerate(vs)}
    return vs, tuple(subst(b, mp) for b in bodies)


def sum_(binders, body):
    """binders: list of (ixatom, extent Poly)"""
    out = ZERO
    binders = list(binders)
    if not binders:
        return body
    for m, c in body.t:
        out = add(out, scale(_sum_mono(binders, m), c))
    return out


def _sum_mono(binders, m):
    outer = {}
    inner = {}
    bs = list(binders)
    vs = {v for v, e in bs}
    for a, e in m:
        if a.fv & vs:
            if a.kind == 'fn' and a.args[0] == 'exp':
                q = scale(a.args[1], e)
                dep = {}
                ind = {}
                for mm, cc in q.t:
                    if any(f.fv & vs for f, _ in mm):
                        dep[mm] = cc
                    else:
                        ind[mm] = cc
                if ind:
                    ea = exp(from_dict(ind))
                    for mm, cc in ea.t:
                        for f, ee in mm:
                            outer[f] = outer.get(f, 0) + ee
                inner[raw('fn', 'exp', from_dict(dep))] = Fr(1)
            else:
                inner[a] = e
        else:
            outer[a] = outer.get(a, 0) + e
    res = ONE
    k, mm, extra = _norm_mono(outer)
    res = scale(_mk(((mm, Fr(1)),)), k) if k else ZERO
    for q in extra:
        res = mul(res, q)
    # contraction with equality indicators
    for a in list(inner):
        if a.kind == 'eq':
            for v, ext in bs:
                if v in a.fv:
                    s = solve_lin(a.args[0], v)
                    if s is not None:
                        rest = [(x, y) for x, y in bs if x is not v]
                        body = _mk(((_sorted({f: e for f, e in inner.items() if f is not a}), Fr(1)),))
                        body = subst(body, {v: s})
                        return mul(res, sum_(rest, body))
    used = set()
    for a in inner:
        used |= (a.fv & vs)
    for v, ext in bs:
        if v not in used:
            res = mul(res, ext)
    bs = [(v, e) for v, e in bs if v in used]
    if not bs:
        return res
    # merge inner sums with exponent one (prenex form)
    merged = {}
    for a, e in inner.items():
        if a.kind == 'B' and a.args[0] == 'sum' and e == 1:
            nv, (bd,) = open_binder(a)
            bs = bs + list(zip(nv, a.args[1]))
            for f, ee in bd.t[0][0]:
                merged[f] = merged.get(f, 0) + ee
            if bd.t[0][1] != 1:
                res = scale(res, bd.t[0][1])
        else:
            merged[a] = merged.get(a, 0) + e
    k, mm, extra = _norm_mono(merged)
    body = _mk(((mm, k),)) if k else ZERO
    if extra:
        for q in extra:
            body = mul(body, q)
        return mul(res, sum_(bs, body))
    if not body.t:
        return ZERO
    if k != 1:
        res = scale(res, k)
        body = _mk(((mm, Fr(1)),))
    # split into connected components (factorised double sums)
    comps = _components(body.t[0][0], [v for v, _ in bs])
    if len(comps) > 1:
        for fac, cvs in comps:
            b2 = [(v, e) for v, e in bs if v in cvs]
            bd = _mk(((_sorted(dict(fac)), Fr(1)),))
            res = mul(res, mkB('sum', tuple(e for v, e in b2), tuple(v for v, e in b2), (bd,)))
        return res
    return mul(res, mkB('sum', tuple(e for v, e in bs), tuple(v for v, e in bs), (body,)))


def _components(mono, vs):
    groups = []
    # exp atoms may mix additive parts: treat as one factor
    for f, e in mono:
        s = {v for v in vs if v in f.fv}
        fac = [(f, e)]
        new = []
        for gf, gs in groups:
            if gs & s:
                fac = gf + fac
                s = s | gs
            else:
                new.append((gf, gs))
        new.append((fac, s))
        groups = new
    return groups


def solve_lin(p, v):
    """solve p == 0 for index var v when p = +-v + rest"""
    coef = None
    rest = {}
    for m, c in p.t:
        if m == ((v, Fr(1)),):
            coef = c
        else:
            for a, e in m:
                if v in a.fv:
                    return None
            rest[m] = c
    if coef in (1, -1):
        return scale(from_dict(rest), -1 / coef)
    return None


def prod_(binders, body):
    bs = list(binders)
    if is_const(body) and cval(body) in (0, 1):
        return body
    if len(body.t) == 1 and body.t[0][0]:
        # distribute over factors
        pass
    return mkB('prod', tuple(e for v, e in bs), tuple(v for v, e in bs), (body,))


def max_(binders, body):
    bs = list(binders)
    vs = {v for v, e in bs}
    if not (body.fv & vs):
        return body
    dep = {}
    ind = {}
    for m, c in body.t:
        if any(a.fv & vs for a, e in m):
            dep[m] = c
        else:
            ind[m] = c
    out = from_dict(ind)
    d = from_dict(dep)
    # common positive factor independent of the binder
    if len(d.t) == 1:
        m, c = d.t[0]
        g = {a: e for a, e in m if not (a.fv & vs) and nonneg_atom(a)}
        f = _mk(((_sorted(g), abs(c)),))
        inner = _mk(((_sorted({a: e for a, e in m if a not in g}), Fr(1 if c > 0 else -1)),))
    else:
        lc, g = content(d)
        g = {a: e for a, e in g.items() if not (a.fv & vs) and nonneg_atom(a)}
        f = _mk(((_sorted(g), abs(lc)),))
        inv = _mk(((_sorted({a: -e for a, e in g.items()}), 1 / abs(lc)),))
        inner = mul(d, inv)
    # nested max merge
    sa = single_atom(inner)
    if sa is not None and sa.kind == 'B' and sa.args[0] == 'max':
        nv, (bd,) = open_binder(sa)
        bs = bs + list(zip(nv, sa.args[1]))
        inner = bd
    if ind_poly(inner) and inner.t:
        return add(out, mul(f, any_(bs, inner)))
    return add(out, mul(f, mkB('max', tuple(e for v, e in bs), tuple(v for v, e in bs), (inner,))))


def min_(binders, body):
    return neg(max_(binders, neg(body)))


def argmax_(binder, body):
    v, ext = binder
    dep = {}
    for m, c in body.t:
        if any(v in a.fv for a, e in m):
            dep[m] = c
    d = from_dict(dep)
    if not d.t:
        return ZERO
    if len(d.t) == 1:
        m, c = d.t[0]
        g = {a: e for a, e in m if v not in a.fv and pos_atom(a)}
        d = _mk(((_sorted({a: e for a, e in m if a not in g}), Fr(1 if c > 0 else -1)),))
    else:
        lc, g = content(d)
        g = {a: e for a, e in g.items() if v not in a.fv and pos_atom(a)}
        inv = _mk(((_sorted({a: -e for a, e in g.items()}), 1 / abs(lc)),))
        d = mul(d, inv)
    return mkB('argmax', (ext,), (v,), (d,))


def any_(binders, body):
    bs = list(binders)
    vs = {v for v, e in bs}
    if not (body.fv & vs):
        return body
    # pull out independent indicator factors of a single monomial
    if len(body.t) == 1:
        m, c = body.t[0]
        g = {a: e for a, e in m if not (a.fv & vs)}
        if g:
            rest = _mk(((_sorted({a: e for a, e in m if a not in g}), Fr(1)),))
            return mul(_mk(((_sorted(g), Fr(1)),)), any_(bs, rest))
        sa = single_atom(body)
        if sa is not None and sa.kind == 'B' and sa.args[0] == 'any':
            nv, (bd,) = open_binder(sa)
            bs = bs + list(zip(nv, sa.args[1]))
            body = bd
    return mkB('any', tuple(e for v, e in bs), tuple(v for v, e in bs), (body,))


def all_(binders, body):
    return not_(any_(binders, not_(body)))


def app(op, binders, bodies, outs=()):
    """uninterpreted function of whole (core) arrays: op{v.. . body}[outs]"""
    return mkB(op, tuple(e for v, e in binders), tuple(v for v, e in binders), tuple(bodies), tuple(outs))


# --------------------------------------------------------------- substitution
def subst(x, mp):
    if not mp:
        return x
    memo = {}
    keys = frozenset(mp)
    return _sub(x, mp, keys, memo)


def _sub(x, mp, keys, memo):
    if isinstance(x, Poly):
        if not (x.fv & keys):
            return x
        r = memo.get(x)
        if r is not None:
            return r
        out = ZERO
        d = {}
        slow = []
        for m, c in x.t:
            keep = {}
            fac = []
            for a, e in m:
                if a.fv & keys:
                    fac.append((a, e))
                else:
                    keep[a] = e
            if not fac:
                d[m] = d.get(m, 0) + c
                continue
            p = _mk(((_sorted(keep), c),)) if keep else const(c)
            for a, e in fac:
                p = mul(p, power(_subatom(a, mp, keys, memo), e))
            slow.append(p)
        out = from_dict(d)
        for p in slow:
            out = add(out, p)
        memo[x] = out
        return out
    if isinstance(x, tuple):
        return tuple(_sub(y, mp, keys, memo) for y in x)
    return x


def _subatom(a, mp, keys, memo):
    r = memo.get(a)
    if r is not None:
        return r
    k = a.kind
    if k in ('ix', 'bv'):
        r = mp.get(a)
        r = atom(a) if r is None else P(r)
    elif k == 'arr':
        r = arr(a.args[0], _sub(a.args[1], mp, keys, memo))
    elif k == 'fn':
        n = a.args[0]
        if n == 'binv':
            r = perminv(a.args[1], _sub(a.args[2], mp, keys, memo), _sub(a.args[3], mp, keys, memo))
        elif n == 'inbatch':
            r = inperm(a.args[1], _sub(a.args[2], mp, keys, memo), _sub(a.args[3], mp, keys, memo),
                       _sub(a.args[4], mp, keys, memo), _sub(a.args[5], mp, keys, memo))
        elif n == 'powA':
            r = _pow_sym(_sub(a.args[1], mp, keys, memo), _sub(a.args[2], mp, keys, memo))
        else:
            r = fn(n, *[_sub(y, mp, keys, memo) for y in a.args[1:]])
    elif k == 'gt':
        r = ind_gt(_sub(a.args[0], mp, keys, memo))
    elif k == 'ge':
        r = ind_ge(_sub(a.args[0], mp, keys, memo))
    elif k == 'eq':
        r = ind_eq(_sub(a.args[0], mp, keys, memo))
    elif k == 'P':
        q = _sub(a.args[0], mp, keys, memo)
        r = q
    elif k == 'B':
        op, exts, bodies, outs, lvl = a.args
        vs = [fresh() for _ in exts]
        m2 = {kk: vv for kk, vv in mp.items()}
        for i, v in enumerate(vs):
            m2[raw('bv', lvl + 1 + i)] = atom(v)
        nb = tuple(subst(b, m2) for b in bodies)
        no = _sub(outs, mp, keys, memo)
        ne = _sub(exts, mp, keys, memo)
        r = rebuild(op, list(zip(vs, ne)), nb, no)
    else:
        r = atom(raw(k, *_sub(a.args, mp, keys, memo)))
    memo[a] = r
    return r


def rebuild(op, binders, bodies, outs):
    if op == 'sum':
        return sum_(binders, bodies[0])
    if op == 'max':
        return max_(binders, bodies[0])
    if op == 'any':
        return any_(binders, bodies[0])
    if op == 'argmax':
        return argmax_(binders[0], bodies[0])
    if op == 'enum':
        return enum(binders[0][1], binders[0][0], bodies[0], outs[0])
    if op == 'rank':
        return rank(binders[0][1], binders[0][0], bodies[0], outs[0])
    if op == 'prod':
        return prod_(binders, bodies[0])
    return app(op, binders, bodies, outs)


# replacing atoms (not only index vars) -------------------------------------
def replace(x, fnmap):
    """rewrite every atom a bottom-up through fnmap(a)->Poly|None (a has already rewritten arguments)"""
    memo = {}

    def rp(x):
        if isinstance(x, Poly):
            r = memo.get(x)
            if r is not None:
                return r
            out = ZERO
            for m, c in x.t:
                p = const(c)
                for a, e in m:
                    p = mul(p, power(ra(a), e))
                out = add(out, p)
            memo[x] = out
            return out
        if isinstance(x, tuple):
            return tuple(rp(y) for y in x)
        return x

    def ra(a):
        r = memo.get(a)
        if r is not None:
            return r
        k = a.kind
        r = fnmap(a)
        if r is None:
            if k in ('ix', 'bv', 'sym', 'dim', 'num'):
                r = atom(a)
            elif k == 'arr':
                r = arr(a.args[0], rp(a.args[1]))
            elif k == 'fn':
                n = a.args[0]
                if n == 'binv':
                    r = perminv(a.args[1], rp(a.args[2]), rp(a.args[3]))
                elif n == 'inbatch':
                    r = inperm(a.args[1], rp(a.args[2]), rp(a.args[3]), rp(a.args[4]), rp(a.args[5]))
                elif n == 'powA':
                    r = _pow_sym(rp(a.args[1]), rp(a.args[2]))
                else:
                    r = fn(n, *[rp(y) for y in a.args[1:]])
            elif k == 'gt':
                r = ind_gt(rp(a.args[0]))
            elif k == 'ge':
                r = ind_ge(rp(a.args[0]))
            elif k == 'eq':
                r = ind_eq(rp(a.args[0]))
            elif k == 'P':
                r = rp(a.args[0])
            elif k == 'B':
                vs, bodies = open_binder(a)
                r = rebuild(a.args[0], list(zip(vs, rp(a.args[1]))), rp(bodies), rp(a.args[3]))
            else:
                r = atom(raw(k, *rp(a.args)))
        memo[a] = r
        return r
    return rp(x)


def walk(x, seen=None):
    """all atoms reachable (binder bodies in bv form)"""
    if seen is None:
        seen = set()
    st = [x]
    while st:
        y = st.pop()
        if isinstance(y, Poly):
            if y in seen:
                continue
            seen.add(y)
            for m, c in y.t:
                for a, e in m:
                    st.append(a)
        elif isinstance(y, Atom):
            if y in seen:
                continue
            seen.add(y)
            yield y
            if y.kind == 'arr' and y.args[0] in LETDEF:
                st.append(LETDEF[y.args[0]][1])
            for z in y.args:
                st.append(z)
        elif isinstance(y, tuple):
            st.extend(y)


# --------------------------------------------------------------- equality
def equal(a, b):
    """True / False (normal forms differ after all normalisations)"""
    if a is b:
        return True
    try:
        d = sub(a, b)
        return is_zero(d)
    except Blowup:
        return None


def is_zero(d, depth=0):
    if not d.t:
        return True
    if depth > 6:
        return False
    # expand pos(p) -> p*[p>0]
    has = set()
    for m, c in d.t:
        for a, e in m:
            if a.kind == 'fn' and a.args[0] == 'pos':
                has.add('pos')
            if a.kind == 'ge':
                has.add('ge')
            if a.kind == 'P' and e < 0:
                has.add('den')
            if a.kind == 'fn' and a.args[0] == 'abs':
                has.add('abs')
    if 'den' in has:
        for m, c in d.t:
            for a, e in m:
                if a.kind == 'P' and e < 0:
                    emin = min([dict(mm).get(a, Fr(0)) for mm, cc in d.t])
                    d2 = mul_expand(d, a, -emin)
                    return is_zero(d2, depth + 1)
    if 'pos' in has:
        def rw(a):
            if a.kind == 'fn' and a.args[0] == 'pos':
                return mul(a.args[1], ind_gt(a.args[1]))
        d2 = ZERO
        for m, c in d.t:
            p = const(c)
            for a, e in m:
                r = rw(a)
                p = mul(p, power(r if r is not None else atom(a), e))
            d2 = add(d2, p)
        if d2 is not d:
            return is_zero(d2, depth + 1)
    if 'ge' in has:
        for m, c in d.t:
            for a, e in m:
                if a.kind == 'ge':
                    q = a.args[0]
                    # ge = gt + eq ; cofactor of eq must vanish modulo q
                    d0 = ZERO
                    co = ZERO
                    for mm, cc in d.t:
                        mmd = dict(mm)
                        if a in mmd:
                            del mmd[a]
                            co = add(co, _mk(((_sorted(mmd), cc),)))
                        else:
                            d0 = add(d0, _mk(((mm, cc),)))
                    rest = add(d0, mul(co, ind_gt(q)))
                    if not divisible(co, q):
                        # keep exact: the eq part must vanish by itself together with eq-terms already present
                        rest = add(rest, mul(co, atom(raw('eq', q))))
                        return False if depth > 4 else is_zero(rest, depth + 1)
                    return is_zero(rest, depth + 1)
    if 'eq' not in has:
        # eq cofactors divisible
        for m, c in d.t:
            for a, e in m:
                if a.kind == 'eq':
                    co = ZERO
                    d0 = ZERO
                    for mm, cc in d.t:
                        mmd = dict(mm)
                        if a in mmd:
                            del mmd[a]
                            co = add(co, _mk(((_sorted(mmd), cc),)))
                        else:
                            d0 = add(d0, _mk(((mm, cc),)))
                    if divisible(co, a.args[0]):
                        return is_zero(d0, depth + 1)
                    s = eq_reduce(co, a.args[0])
                    if s is not None and not s.t:
                        return is_zero(d0, depth + 1)
    return False


def eq_reduce(co, p):
    """value of co on the set p==0 when p is linear in an index variable"""
    for v in p.fv:
        s = solve_lin(p, v)
        if s is not None:
            return subst(co, {v: s})
    return None


def mul_expand(d, a, k):
    """multiply d by (P-atom a)^k, expanding"""
    q = a.args[0]
    out = ZERO
    for m, c in d.t:
        md = dict(m)
        e = md.pop(a, Fr(0)) + k
        p = _mk(((_sorted(md), c),))
        ip = e.numerator // e.denominator
        r = e - ip
        if ip > 0:
            p = mul(p, _pow_int(q, ip))
        elif ip < 0:
            r = e
        if r:
            p = mul(p, _mk(((((a, r),), Fr(1)),)))
        out = add(out, p)
    return out


def divisible(co, q):
    """exact multivariate division test co = q * s"""
    if not co.t:
        return True
    # leading term division w.r.t. last monomial order (by uid key)
    try:
        lt, lc = q.t[-1]
        r = co
        n = 0
        while r.t and n < 400:
            n += 1
            found = False
            for m, c in reversed(r.t):
                md = dict(m)
                ok = True
                for a, e in lt:
                    if md.get(a, Fr(0)) < e:
                        ok = False
                        break
                if ok:
                    for a, e in lt:
                        md[a] -= e
                    t = _mk(((_sorted(md), c / lc),))
                    r2 = sub(r, mul(t, q))
                    if len(r2.t) > 3 * len(co.t) + 20:
                        return False
                    r = r2
                    found = True
                    break
            if not found:
                return False
        return not r.t
    except Blowup:
        return False


# --------------------------------------------------------------- printing
def show(p, depth=0):
    if not p.t:
        return '0'
    if depth > 7:
        return '...'
    s = []
    for m, c in p.t[:14]:
        fs = []
        for a, e in m:
            x = show_atom(a, depth + 1)
            fs.append(x if e == 1 else f'{x}^{e}' if e.denominator == 1 and e > 0 else f'{x}^({e})')
        if not fs:
            s.append(str(c))
        elif c == 1:
            s.append('*'.join(fs))
        elif c == -1:
            s.append('-' + '*'.join(fs))
        else:
            s.append(f'{c}*' + '*'.join(fs))
    if len(p.t) > 14:
        s.append(f'...[{len(p.t)} terms]')
    r = ' + '.join(s).replace('+ -', '- ')
    return f'({r})' if len(p.t) > 1 and depth else r


def show_atom(a, depth=0):
    k = a.kind
    if k == 'ix':
        n = a.args[0]
        if isinstance(n, tuple):
            return {'r': 'i', 't': 't'}.get(n[0], str(n[0])) + '.'.join(str(q) for q in n[1:])
        return str(n)
    if k == 'bv':
        return f'b{a.args[0]}'
    if k in ('sym', 'dim'):
        return str(a.args[0])
    if k == 'num':
        return str(a.args[0])
    if k == 'arr':
        n = a.args[0]
        return f"{n if isinstance(n, str) else ':'.join(map(str, n))}[{','.join(show(i, depth + 1) for i in a.args[1])}]"
    if k == 'fn':
        return f"{a.args[0]}({','.join(show(i, depth + 1) if isinstance(i, Poly) else str(i) for i in a.args[1:])})"
    if k in IND:
        return f"[{show(a.args[0], depth + 1)}{ {'gt': '>', 'ge': '>=', 'eq': '=='}[k]}0]"
    if k == 'P':
        return show(a.args[0], depth + 1) if len(a.args[0].t) > 1 else f'({show(a.args[0], depth+1)})'
    if k == 'B':
        op, exts, bodies, outs, lvl = a.args
        vs = ','.join(f'b{lvl+1+i}<{show(e)}' for i, e in enumerate(exts))
        o = f"@{','.join(show(i, depth + 1) for i in outs)}" if outs else ''
        return f"{op}{{{vs}. {'; '.join(show(b, depth + 1) for b in bodies)}}}{o}"
    return f'{k}{a.args}'
