"""Abstract models of the python builtins and of the numpy / scipy / torch API."""
from fractions import Fraction as Fr
from . import terms as T
from .terms import P, ZERO, ONE, fresh, atom
from .interp import (V, Num, Str, NONE, ELL, UNDEF, NOTIMPL, Tup, Ref, Lst, Dct, Obj, Arr, Fun, Bound, Wrap, Cls, Mod, Ext,
                     ExtObj, Py, SliceV, RangeV, SymSeq, Phi, TopV, BufRec, ListRec, DictRec, EnvRec, ObjRec, Guarded, Raised,
                     Unsupported, shape_vars, extent, mkdim, solve_index)

CONSTS = {'pi': lambda: Num(T.PI), 'inf': lambda: Num(T.INF), 'Inf': lambda: Num(T.INF), 'e': lambda: Num(T.EUL),
          'nan': lambda: Num(T.sym('nan')), 'newaxis': lambda: NONE, 'NINF': lambda: Num(T.neg(T.INF))}

ELEMWISE = {}


def elem(name):
    def d(f):
        ELEMWISE[name] = f
        return f
    return d


for _n in ('sin', 'cos', 'tan', 'tanh', 'sinh', 'cosh', 'arctan', 'arcsin', 'arccos', 'erf', 'floor', 'ceil', 'sign', 'log1p', 'expm1',
           'isfinite', 'rint', 'gamma', 'gammaln'):
    ELEMWISE[_n] = (lambda n: lambda p: T.fn(n, p))(_n)
ELEMWISE['sign'] = T.sign
ELEMWISE['abs'] = T.abs_
ELEMWISE['absolute'] = T.abs_
ELEMWISE['fabs'] = T.abs_
ELEMWISE['exp'] = T.exp
ELEMWISE['log'] = T.log
ELEMWISE['sqrt'] = T.sqrt
ELEMWISE['square'] = lambda p: T.power(p, 2)
ELEMWISE['negative'] = T.neg
ELEMWISE['reciprocal'] = lambda p: T.power(p, -1)
ELEMWISE['log2'] = lambda p: T.div(T.log(p), T.log(P(2)))
ELEMWISE['log10'] = lambda p: T.div(T.log(p), T.log(P(10)))
ELEMWISE['expm1'] = lambda p: T.sub(T.exp(p), ONE)
ELEMWISE['log1p'] = lambda p: T.log(T.add(p, ONE))
ELEMWISE['logical_not'] = lambda p: T.not_(T.truth(p))
ELEMWISE['isnan'] = lambda p: T.atom(T.raw('fn', 'isnan', p)) if not T.is_const(p) else ZERO
ELEMWISE['deg2rad'] = lambda p: T.mul(p, T.div(T.PI, P(180)))

BINF = {
    'maximum': T.maximum, 'minimum': T.minimum, 'add': T.add, 'subtract': T.sub, 'multiply': T.mul,
    'true_divide': T.div, 'divide': T.div, 'fmax': T.maximum, 'fmin': T.minimum,
    'mod': T.mod, 'remainder': T.mod, 'floor_divide': T.floordiv,
    'logical_and': lambda a, b: T.and_(T.truth(a), T.truth(b)), 'logical_or': lambda a, b: T.or_(T.truth(a), T.truth(b)),
    'greater': lambda a, b: T.ind_gt(T.sub(a, b)), 'less': lambda a, b: T.ind_gt(T.sub(b, a)),
    'greater_equal': lambda a, b: T.ind_ge(T.sub(a, b)), 'less_equal': lambda a, b: T.ind_ge(T.sub(b, a)),
    'equal': lambda a, b: T.ind_eq(T.sub(a, b)), 'not_equal': lambda a, b: T.not_(T.ind_eq(T.sub(a, b))),
    'logaddexp': lambda a, b: T.log(T.add(T.exp(a), T.exp(b))), 'arctan2': lambda a, b: T.fn('arctan2', a, b), 'hypot': lambda a, b: T.sqrt(T.add(T.power(a, 2), T.power(b, 2))),
}
BOOLRES = {'logical_and', 'logical_or', 'greater', 'less', 'greater_equal', 'less_equal', 'equal', 'not_equal'}
INPLACE_METHODS = ('fill', 'sort', 'put', 'itemset')

READONLY_EXT = ('matplotlib', 'warnings', 'mpl_toolkits', 'pprint', 'functools', 'typing', 'logging')


class Lib:
    def __init__(self, I):
        self.I = I
        self.whereinfo = {}
        self.permcount = 0
        self.phis = 0

    # ------------------------------------------------------------ helpers
    def mk(self, shape, term, dtype='f', base=None, why=''):
        shape = tuple(shape)
        if shape == () and base is None:
            if term is None:
                return self.I.top('unknown scalar ' + why)
            return Num(term, {'f': 'float', 'i': 'int', 'b': 'bool'}[dtype])
        return self.I.arr(shape, term, dtype, base=base, why=why)

    def asarr(self, v):
        """(shape, term, dtype) of an array-like or None"""
        I = self.I
        if isinstance(v, Num):
            return (), v.p, {'int': 'i', 'bool': 'b'}.get(v.ty, 'f')
        if isinstance(v, Arr):
            r = I.heap[v.id]
            return r.shape, I.read(v), r.dtype
        if isinstance(v, (Tup, Lst, SymSeq)):
            w = self.np_array([v], {})
            if isinstance(w, Arr):
                return self.asarr(w)
            if isinstance(w, Num):
                return self.asarr(w)
        if isinstance(v, RangeV):
            n = self.range_len(v)
            if n is None:
                return None
            d = mkdim(n)
            vv = shape_vars((d,))[0]
            return (d,), T.add(v.a, T.mul(v.s, atom(vv[0]))) if vv else v.a, 'i'
        return None

    def vars(self, shape):
        return shape_vars(shape)

    def poly(self, v):
        if isinstance(v, Num):
            return v.p
        if isinstance(v, Arr):
            s, t, d = self.asarr(v)
            if all(x == () for x in s):
                return t
        return None

    def intval(self, v):
        p = self.poly(v) if not isinstance(v, int) else P(v)
        if p is not None and T.is_const(p) and T.cval(p).denominator == 1:
            return int(T.cval(p))
        return None

    def phi_map(self, v, f):
        """push f through Phi values"""
        I = self.I
        if isinstance(v, Phi):
            if v.a is UNDEF:
                return f(v.b)
            if v.b is UNDEF:
                return f(v.a)
            return I.branch_values(v.c, lambda: self.phi_map(v.a, f), lambda: self.phi_map(v.b, f))
        return f(v)

    def bshape(self, shapes, what='broadcast'):
        """broadcast shapes; None (and a finding) on a definite mismatch"""
        nd = max([len(s) for s in shapes] + [0])
        out = []
        for k in range(nd):
            cur = ()
            for s in shapes:
                i = len(s) - nd + k
                if i < 0:
                    continue
                d = s[i]
                if d == ():
                    continue
                if cur == ():
                    cur = d
                elif cur != d:
                    e1, e2 = extent(cur), extent(d)
                    if e1 is e2:
                        self.I.note('layout mismatch in broadcast')
                        return None
                    df = T.sub(e1, e2)
                    if T.sign_of(df) == '0':
                        continue
                    if not self._differ(e1, e2):
                        self.I.note('unknown extent in broadcast')
                        return None
                    self.I.finding('shape', 'operands with axis lengths %s and %s cannot be combined (%s)' % (T.show(e1), T.show(e2), what))
                    return None
            out.append(cur)
        return tuple(out)

    def harmonise(self, aa):
        """give axes of equal extent the same component layout (the finer one)"""
        nd = max([len(a[0]) for a in aa] + [0])
        for k in range(1, nd + 1):
            lay = {a[0][-k] for a in aa if len(a[0]) >= k and a[0][-k] != ()}
            if len(lay) < 2:
                continue
            fine = max(lay, key=lambda q: (len(q), repr(q)))
            if any(len(q) != 1 for q in lay if q != fine) or any(extent(q) is not extent(fine) for q in lay):
                continue
            new = []
            for a in aa:
                if len(a[0]) >= k and a[0][-k] != () and a[0][-k] != fine:
                    sh = a[0][:len(a[0]) - k] + (fine,) + a[0][len(a[0]) - k + 1:]
                    t = a[1]
                    if t is not None:
                        v0 = shape_vars(a[0])[-k][0]
                        vs = shape_vars(sh)[-k]
                        i = atom(vs[0])
                        for v, e in zip(vs[1:], fine[1:]):
                            i = T.add(T.mul(i, e), atom(v))
                        t = T.subst(t, {v0: i})
                    a = (sh, t) + tuple(a[2:])
                new.append(a)
            aa = new
        return aa

    def _opaque_dim(self, e):
        for m, c in e.t:
            for a, k in m:
                if a.kind not in ('dim', 'num'):
                    return True
        return False

    def _differ(self, e1, e2):
        """extents which are definitely not equal in general; extents with computed counts are compared by sampling"""
        if not self._opaque_dim(e1) and not self._opaque_dim(e2):
            return True
        from . import ri
        try:
            v = [self._sample_differ(ri, e1, e2, s) for s in range(8)]
            return v.count(True) >= 4
        except Exception:                                       # noqa: BLE001
            return False

    def _sample_differ(self, ri, e1, e2, s):
        mo = ri.Model(s)
        try:
            a, b = mo.ev(e1, {}), mo.ev(e2, {})
        except ri.Skip:
            return None
        return a is not None and b is not None and a == a and b == b and abs(a - b) > 0.5

    def lift(self, f, vals, dtype=None, what='elementwise'):
        """apply an elementwise term function to array-likes with broadcasting"""
        I = self.I
        for i, v in enumerate(vals):
            if isinstance(v, Phi):
                return self.phi_map(v, lambda x: self.lift(f, vals[:i] + [x] + vals[i + 1:], dtype, what))
        aa = []
        for v in vals:
            if v is NONE:
                raise Raised('TypeError', 'None operand')
            a = self.asarr(v)
            if a is None:
                return I.top(what + ' on ' + type(v).__name__)
            aa.append(a)
        aa = self.harmonise(aa)
        shape = self.bshape([a[0] for a in aa], what)
        if shape is None:
            return I.top('broadcast')
        if any(a[1] is None for a in aa):
            return self.mk(shape, None, 'f', why=what)
        try:
            t = f(*[a[1] for a in aa])
        except T.Blowup:
            I.note('blowup in ' + what)
            t = None
        if dtype is None:
            ds = {a[2] for a in aa}
            dtype = 'f' if 'f' in ds else 'i'
        return self.mk(shape, t, dtype)

    # ------------------------------------------------------------ operators
    def binop(self, op, a, b):
        I = self.I
        if isinstance(a, Phi) or isinstance(b, Phi):
            if isinstance(a, Phi):
                return self.phi_map(a, lambda x: self.binop(op, x, b))
            return self.phi_map(b, lambda x: self.binop(op, a, x))
        if isinstance(a, Obj) or isinstance(b, Obj):
            for o, oth, pre in ((a, b, '__'), (b, a, '__r')):
                if isinstance(o, Obj):
                    nm = {'Add': 'add', 'Sub': 'sub', 'Mult': 'mul', 'Div': 'truediv', 'Pow': 'pow', 'MatMult': 'matmul'}.get(op)
                    m, _ = I.heap[o.id].cls.find('%s%s__' % (pre, nm))
                    if m is not None:
                        return I.call(m, (o, oth))
            return I.top('operator on object')
        if isinstance(a, TopV) or isinstance(b, TopV):
            return TopV('operand')
        if isinstance(a, Str) or isinstance(b, Str):
            if op == 'Add' and isinstance(a, Str) and isinstance(b, Str):
                return Str(a.s + b.s)
            if op == 'Mod':
                return Str('<fmt>')
            if op == 'Mult':
                s, n = (a, b) if isinstance(a, Str) else (b, a)
                k = self.intval(n) if isinstance(n, Num) else None
                return Str(s.s * k if k is not None else '<str>')
            raise Raised('TypeError', 'str operand')
        if op == 'Add' and isinstance(a, Tup) and isinstance(b, Tup):
            return Tup(a.items + b.items)
        if op == 'Add' and isinstance(a, Lst) and isinstance(b, Lst):
            ra, rb = I.heap[a.id], I.heap[b.id]
            if ra.sym is None and rb.sym is None:
                return I.mklist(ra.items + rb.items)
            if ra.sym is None and not ra.items:
                return I.mklist((), rb.sym)
            if rb.sym is None and not rb.items:
                return I.mklist((), ra.sym)
            return I.top('list concat')
        if op == 'Mult' and (isinstance(a, (Tup, Lst)) or isinstance(b, (Tup, Lst))) and (isinstance(a, Num) or isinstance(b, Num)):
            s, n = (a, b) if isinstance(a, (Tup, Lst)) else (b, a)
            k = self.intval(n)
            items = s.items if isinstance(s, Tup) else I.heap[s.id].items
            if k is None:
                if isinstance(s, Lst) and len(items) == 1:
                    return I.mklist((), SymSeq(n.p, fresh(), items[0]))
                return I.top('sequence repeat')
            r = tuple(items) * max(k, 0)
            return Tup(r) if isinstance(s, Tup) else I.mklist(r)
        if op == 'BitOr' and isinstance(a, Dct) and isinstance(b, Dct):
            d = dict(I.heap[a.id].d)
            d.update(I.heap[b.id].d)
            return I.mkdict(d)
        if op == 'MatMult':
            return self.matmul(a, b)
        if op in ('BitAnd', 'BitOr', 'BitXor'):
            f = {'BitAnd': T.and_, 'BitOr': T.or_, 'BitXor': lambda x, y: T.sub(T.add(x, y), T.scale(T.mul(x, y), 2))}[op]
            return self.lift(lambda x, y: f(T.truth(x), T.truth(y)), [a, b], 'b')
        if a is NONE or b is NONE:
            raise Raised('TypeError', 'None operand')
        dt = None
        f = {'Add': T.add, 'Sub': T.sub, 'Mult': T.mul, 'Div': T.div, 'Pow': self._pow, 'Mod': T.mod, 'FloorDiv': T.floordiv}.get(op)
        if f is None:
            return I.top('operator ' + op)
        if op == 'Div':
            dt = 'f'
        if op == 'Pow' and isinstance(b, Num) and isinstance(a, Num) and a.ty == 'int' and T.is_const(b.p) and T.cval(b.p) < 0:
            dt = 'f'
        return self.lift(f, [a, b], dt, op)

    def _pow(self, x, e):
        if T.is_const(e):
            return T.power(x, T.cval(e))
        if e is T.INF:
            return T.fn('powinf', x)
        return T.power(x, e)

    def unop(self, op, a):
        I = self.I
        if isinstance(a, Phi):
            return self.phi_map(a, lambda x: self.unop(op, x))
        if isinstance(a, TopV):
            return a
        if op == 'USub':
            return self.lift(T.neg, [a])
        if op == 'UAdd':
            return a
        if op == 'Invert':
            s = self.asarr(a)
            if s is None or s[2] != 'b':
                if isinstance(a, Num) and a.ty != 'bool' and not T.ind_poly(a.p):
                    return I.top('bit inversion')
            return self.lift(lambda p: T.not_(T.truth(p)), [a], 'b')
        return I.top('unary ' + op)

    def ident(self, a, b):
        """indicator of `a is b` or None"""
        if isinstance(a, Phi):
            x, y = self.ident(a.a, b), self.ident(a.b, b)
            if x is None or y is None:
                return None
            return self.I.gamma(a.c, x, y)
        if isinstance(b, Phi):
            return self.ident(b, a)
        if isinstance(a, TopV) or isinstance(b, TopV):
            return None
        if a is NONE or b is NONE or a is ELL or b is ELL:
            return ONE if a is b else ZERO
        if isinstance(a, Num) and isinstance(b, Num):
            if a.ty == 'bool' and b.ty == 'bool':
                return T.not_(T.ind_eq(T.sub(T.not_(a.p), b.p))) if not (T.is_const(a.p) and T.is_const(b.p)) else (ONE if a.p is b.p else ZERO)
            if a.ty != b.ty:
                return ZERO
            return T.ind_eq(T.sub(a.p, b.p))
        if isinstance(a, Ref) and isinstance(b, Ref):
            return ONE if a == b else ZERO
        if type(a) is not type(b):
            return ZERO
        if isinstance(a, Str):
            return ONE if a.s == b.s else ZERO
        if isinstance(a, Bound):
            return ONE if a.fun is b.fun else ZERO
        return ONE if a is b or (isinstance(a, Ext) and a == b) else ZERO

    def eq(self, a, b):
        I = self.I
        if isinstance(a, Phi):
            x, y = self.eq(a.a, b), self.eq(a.b, b)
            return I.gamma(a.c, x, y) if x is not None and y is not None else None
        if isinstance(b, Phi):
            return self.eq(b, a)
        if isinstance(a, Num) and isinstance(b, Num):
            return T.ind_eq(T.sub(a.p, b.p))
        if isinstance(a, Str) and isinstance(b, Str):
            return ONE if a.s == b.s else ZERO
        if isinstance(a, TopV) or isinstance(b, TopV):
            return None
        if isinstance(a, (Tup, Lst)) and isinstance(b, (Tup, Lst)) and type(a) is type(b):
            x, y = self.iterate(a), self.iterate(b)
            if x is None or y is None:
                return None
            if len(x) != len(y):
                return ZERO
            r = ONE
            for p, q in zip(x, y):
                e = self.eq(p, q)
                if e is None:
                    return None
                r = T.and_(r, e)
            return r
        if a is NONE or b is NONE:
            return ONE if a is b else ZERO
        if isinstance(a, Obj) and isinstance(b, Obj):
            return ONE if a == b else ZERO
        if isinstance(a, Arr) or isinstance(b, Arr):
            return None
        if isinstance(b, ExtObj) and b.kind == 'dtype' and not (isinstance(a, ExtObj) and a.kind == 'dtype'):
            a, b = b, a
        if isinstance(a, ExtObj) and a.kind == 'dtype':
            if isinstance(b, Ext) or isinstance(b, Str):
                n = b.name.split('.')[-1] if isinstance(b, Ext) else b.s
                for dt, std, pre in (('f', ('float', 'float64', 'double', 'float_', 'f8', 'd'), ('float', 'f')), ('i', ('int', 'int64', 'int_', 'long', 'i8', 'l'), ('int', 'uint', 'i')), ('b', ('bool', 'bool_', '?'), ())):
                    if n in std:
                        return ONE if a.data['dt'] == dt else ZERO
                    if any(n.startswith(q) for q in pre):
                        return None if a.data['dt'] == dt else ZERO
                return None
            if isinstance(b, ExtObj) and b.kind == 'dtype':
                return ONE if a.data['dt'] == b.data['dt'] else ZERO
            return None
        if type(a) is not type(b):
            return ZERO
        return self.ident(a, b)

    def compare(self, op, a, b):
        I = self.I
        if op in ('Is', 'IsNot'):
            c = self.ident(a, b)
            if c is None:
                return I.top('identity test')
            return Num(c if op == 'Is' else T.not_(c), 'bool')
        if op in ('In', 'NotIn'):
            c = self.contains(b, a)
            if c is None:
                return I.top('membership test')
            return Num(c if op == 'In' else T.not_(c), 'bool')
        if isinstance(a, Phi):
            return self.phi_map(a, lambda x: self.compare(op, x, b))
        if isinstance(b, Phi):
            return self.phi_map(b, lambda x: self.compare(op, a, x))
        if op in ('Eq', 'NotEq') and not (isinstance(a, Arr) or isinstance(b, Arr)):
            c = self.eq(a, b)
            if c is None:
                return I.top('equality')
            return Num(c if op == 'Eq' else T.not_(c), 'bool')
        if (isinstance(a, Arr) and isinstance(b, Str)) or (isinstance(b, Arr) and isinstance(a, Str)):
            return Num(ZERO if op == 'Eq' else ONE, 'bool')
        if (a is NONE or b is NONE):
            if op in ('Eq', 'NotEq'):
                return Num(ZERO if op == 'Eq' else ONE, 'bool')
            raise Raised('TypeError', 'None comparison')
        if isinstance(a, TopV) or isinstance(b, TopV):
            return TopV('comparison')
        f = {'Eq': 'equal', 'NotEq': 'not_equal', 'Lt': 'less', 'LtE': 'less_equal', 'Gt': 'greater', 'GtE': 'greater_equal'}.get(op)
        if f is None:
            return I.top('compare ' + op)
        return self.lift(BINF[f], [a, b], 'b', 'comparison')

    def contains(self, c, x):
        I = self.I
        if isinstance(c, Phi):
            a, b = self.contains(c.a, x), self.contains(c.b, x)
            return I.gamma(c.c, a, b) if a is not None and b is not None else None
        if isinstance(x, Phi):
            a, b = self.contains(c, x.a), self.contains(c, x.b)
            return I.gamma(x.c, a, b) if a is not None and b is not None else None
        if isinstance(c, ExtObj) and c.kind in ('dictkeys',):
            c = c.data['d']
        if isinstance(c, Dct):
            try:
                k = I.key(x)
            except Unsupported:
                return None
            v = I.heap[c.id].d.get(k, UNDEF)
            if v is UNDEF:
                return ZERO
            if isinstance(v, Phi) and v.a is UNDEF:
                return T.not_(v.c)
            if isinstance(v, Phi) and v.b is UNDEF:
                return v.c
            return ONE
        if isinstance(c, (Tup, Lst)):
            items = self.iterate(c)
            if items is None:
                return None
            r = ZERO
            for y in items:
                if isinstance(y, Guarded):
                    return None
                e = self.eq(y, x)
                if e is None:
                    return None
                r = T.or_(r, e)
            return r
        if isinstance(c, Str) and isinstance(x, Str):
            return ONE if x.s in c.s else ZERO
        return None

    # ------------------------------------------------------------ iteration
    def range_len(self, r):
        if r.s is ONE:
            return T.sub(r.b, r.a)
        if T.is_const(r.a) and T.is_const(r.b) and T.is_const(r.s) and r.s.t:
            return P(len(range(int(T.cval(r.a)), int(T.cval(r.b)), int(T.cval(r.s)))))
        return None

    def iterate(self, v):
        I = self.I
        if isinstance(v, Tup):
            return list(v.items)
        if isinstance(v, Lst):
            r = I.heap[v.id]
            return None if r.sym is not None else list(r.items)
        if isinstance(v, ExtObj) and v.kind in ('dictkeys', 'dictvalues', 'dictitems'):
            d = I.heap[v.data['d'].id].d
            out = []
            for k, x in d.items():
                g = None
                if isinstance(x, Phi) and (x.a is UNDEF or x.b is UNDEF):
                    g = x.c if x.b is UNDEF else T.not_(x.c)
                    x = x.a if x.b is UNDEF else x.b
                y = I.unkey(k) if v.kind == 'dictkeys' else x if v.kind == 'dictvalues' else Tup((I.unkey(k), x))
                out.append(y if g is None else Guarded(g, y))
            return out
        if isinstance(v, Dct):
            return [I.unkey(k) for k in I.heap[v.id].d]
        if isinstance(v, RangeV):
            n = self.range_len(v)
            if n is not None and T.is_const(n) and T.is_const(v.a):
                k = max(int(T.cval(n)), 0)
                if k <= I.MAXUNROLL:
                    return [Num(T.add(v.a, T.scale(v.s, i)), 'int') for i in range(k)]
            if n is not None and T.is_const(n):
                k = max(int(T.cval(n)), 0)
                if k <= I.MAXUNROLL:
                    return [Num(T.add(v.a, T.scale(v.s, i)), 'int') for i in range(k)]
            return None
        if isinstance(v, Arr):
            s = I.shape(v)
            if not s:
                raise Raised('TypeError', 'iteration over 0-d array')
            e = extent(s[0])
            if T.is_const(e):
                return [self.getitem(v, Num(i, 'int')) for i in range(int(T.cval(e)))]
            return None
        if isinstance(v, Str):
            return [Str(c) for c in v.s]
        if isinstance(v, Phi):
            if v.a is UNDEF:
                return self.iterate(v.b)
            if v.b is UNDEF:
                return self.iterate(v.a)
            a, b = self.iterate(v.a), self.iterate(v.b)
            if a is not None and b is not None and len(a) == len(b):
                return [I.merge(v.c, x, y) for x, y in zip(a, b)]
            return None
        if isinstance(v, Num):
            raise Raised('TypeError', 'number not iterable')
        if isinstance(v, Obj):
            m, _ = I.heap[v.id].cls.find('__iter__')
            if m is not None:
                return self.iterate(I.call(m, (v,)))
        return None

    def sym_iter(self, v):
        I = self.I
        if isinstance(v, SymSeq):
            if v.n is None:
                return None
            j = fresh()
            return v.n, j, self.seq_at(v, atom(j)), ZERO
        if isinstance(v, Lst):
            r = I.heap[v.id]
            if r.sym is not None and not r.items:
                return self.sym_iter(r.sym)
            return None
        if isinstance(v, RangeV):
            n = self.range_len(v)
            if n is None:
                return None
            j = fresh()
            return n, j, Num(T.add(v.a, T.mul(v.s, atom(j))), 'int'), v.a
        if isinstance(v, Arr):
            s = I.shape(v)
            if not s:
                return None
            j = fresh()
            return extent(s[0]), j, self.getitem(v, Num(atom(j), 'int')), ZERO
        return None

    def seq_at(self, s, j):
        """element of a SymSeq at index term j"""
        return self.subst_val(s.elem, {s.j: j})

    def subst_val(self, v, mp):
        I = self.I
        if isinstance(v, Num):
            return Num(T.subst(v.p, mp), v.ty)
        if isinstance(v, Tup):
            return Tup([self.subst_val(x, mp) for x in v.items])
        if isinstance(v, Arr):
            r = I.heap[v.id]
            t = I.read(v)
            return I.arr(r.shape, None if t is None else T.subst(t, mp), r.dtype)
        return v

    def unpack(self, v, n):
        I = self.I
        if isinstance(v, TopV):
            return None
        it = self.iterate(v)
        if it is None:
            if isinstance(v, Arr) and n is not None:
                return [self.getitem(v, Num(i, 'int')) for i in range(n)]
            return None
        if any(isinstance(x, Guarded) for x in it):
            return None
        if n is not None and len(it) != n:
            raise Raised('ValueError', 'unpack %d values into %d' % (len(it), n))
        return it

    def list_extend(self, l, v):
        I = self.I
        r = I.heap[l.id]
        it = self.iterate(v)
        I.event('mutate', ref=l)
        if it is None or r.sym is not None:
            I.heap[l.id] = ListRec((), SymSeq(None, None, TopV('list')))
            return
        I.heap[l.id] = ListRec(r.items + tuple(it))

    def list_del(self, l, k):
        I = self.I
        I.event('mutate', ref=l)
        r = I.heap[l.id]
        i = self.intval(k) if isinstance(k, Num) else None
        if r.sym is None and i is not None:
            items = list(r.items)
            del items[i]
            I.heap[l.id] = ListRec(items)
        else:
            I.heap[l.id] = ListRec((), SymSeq(None, None, TopV('list')))

    def check_inplace_shape(self, cur, nv):
        I = self.I
        if isinstance(cur, Arr) and isinstance(nv, Arr):
            a, b = I.shape(cur), I.shape(nv)
            if a != b:
                if len(a) == len(b) and any(self._opaque_dim(extent(x)) for x in a + b):
                    return
                I.finding('shape', 'in-place result has shape %s, target %s' % (self.shp(b), self.shp(a)))

    def shp(self, s):
        return '(' + ', '.join(T.show(extent(d)) for d in s) + ')'

    # ------------------------------------------------------------ indexing
    def getitem(self, o, k):
        I = self.I
        if isinstance(o, Phi):
            return self.phi_map(o, lambda x: self.getitem(x, k))
        if isinstance(k, Phi) and not isinstance(o, Dct):
            return self.phi_map(k, lambda x: self.getitem(o, x))
        if isinstance(o, ExtObj) and o.kind == 'gitem':
            return TopV('item')
        if isinstance(o, Dct):
            d = I.heap[o.id].d
            try:
                kk = I.key(k)
            except Unsupported:
                return I.top('dict key')
            v = d.get(kk, UNDEF)
            if isinstance(v, Phi) and (v.a is UNDEF or v.b is UNDEF):
                return v.b if v.a is UNDEF else v.a
            if v is UNDEF:
                if isinstance(k, Str) and k.s.startswith('<'):
                    return I.top('dict lookup')
                raise Raised('KeyError', str(k))
            return v
        if isinstance(o, (Tup, Lst)):
            if isinstance(o, Lst):
                r = I.heap[o.id]
                if r.sym is not None:
                    if isinstance(k, Num) and r.sym.n is not None and not r.items:
                        p = k.p
                        if T.is_const(p) and T.cval(p) < 0:
                            p = T.add(r.sym.n, p)
                        return self.seq_at(r.sym, p)
                    return I.top('item of symbolic list')
                items = r.items
                if any(isinstance(x, Guarded) for x in items):
                    return I.top('item of guarded list')
            else:
                items = o.items
            if isinstance(k, Num):
                i = self.intval(k)
                if i is None:
                    return I.top('symbolic list index')
                try:
                    return items[i]
                except IndexError:
                    raise Raised('IndexError', '')
            if isinstance(k, SliceV):
                b = [None if x is NONE else self.intval(x) for x in (k.a, k.b, k.c)]
                if any(x is not NONE and y is None for x, y in zip((k.a, k.b, k.c), b)):
                    return I.top('symbolic list slice')
                r = items[slice(*b)]
                return Tup(r) if isinstance(o, Tup) else I.mklist(r)
            return I.top('list index')
        if isinstance(o, Str):
            i = self.intval(k) if isinstance(k, Num) else None
            return Str(o.s[i]) if i is not None and -len(o.s) <= i < len(o.s) else Str('<str>')
        if isinstance(o, Arr):
            return self.arr_getitem(o, k)
        if isinstance(o, Num):
            if k is ELL or (isinstance(k, Tup) and all(x is ELL or x is NONE for x in k.items)):
                n = 0 if k is ELL else sum(1 for x in k.items if x is NONE)
                return self.mk(((),) * n, o.p, 'f')
            raise Raised('IndexError', 'index of scalar')
        if isinstance(o, RangeV) and isinstance(k, Num):
            return Num(T.add(o.a, T.mul(o.s, k.p)), 'int')
        if isinstance(o, SymSeq) and isinstance(k, Num):
            return self.seq_at(o, k.p)
        if isinstance(o, Obj):
            m, _ = I.heap[o.id].cls.find('__getitem__')
            if m is not None:
                return I.call(m, (o, k))
        if isinstance(o, Ext):
            return o          # typing subscripts
        if o is NONE:
            raise Raised('TypeError', 'None is not subscriptable')
        if isinstance(o, TopV):
            return TopV('item')
        return I.top('subscript of ' + type(o).__name__)

    def norm_key(self, o_ndim, k):
        """list of index entries with the ellipsis expanded; None if unknown"""
        I = self.I
        ks = list(k.items) if isinstance(k, Tup) else [k]
        ks = [self._key1(x) for x in ks]
        if any(isinstance(x, (TopV, Phi, Str)) for x in ks):
            return None
        n = 0
        for x in ks:
            if x is NONE or x is ELL:
                continue
            if isinstance(x, Arr) and I.rec(x).dtype == 'b':
                n += len(I.shape(x))
            else:
                n += 1
        if n > o_ndim:
            raise Raised('IndexError', 'too many indices')
        out = []
        seen = False
        for x in ks:
            if x is ELL:
                if seen:
                    continue
                seen = True
                out.extend([SliceV(NONE, NONE, NONE)] * (o_ndim - n))
            else:
                out.append(x)
        if not seen:
            out.extend([SliceV(NONE, NONE, NONE)] * (o_ndim - n))
        return out

    def _key1(self, x):
        I = self.I
        if isinstance(x, (Lst, RangeV)):
            a = self.np_array([x], {})
            return a
        if isinstance(x, Tup):
            return self.np_array([x], {})
        if isinstance(x, Num) and x.ty == 'bool':
            return TopV('scalar bool index')
        return x

    def slice_info(self, sl, ext):
        """(start, length, step) as Polys; None if unknown"""
        st = ONE if sl.c is NONE else self.poly(sl.c)
        if st is None or not T.is_const(st):
            return None
        s = int(T.cval(st))

        def bound(v, dflt):
            if v is NONE:
                return dflt
            p = self.poly(v)
            if p is None:
                return False
            sg = T.sign_of(p)
            if sg == '-':
                p = T.add(ext, p)
            elif sg is None:
                # symbolic -k style?  leave (assumed non negative)
                pass
            return p
        if s > 0:
            a = bound(sl.a, ZERO)
            b = bound(sl.b, ext)
            if a is False or b is False:
                return None
            # clamp b to ext
            if b is not ext:
                sg = T.sign_of(T.sub(ext, b))
                if sg in ('-', '<='):
                    b = ext
                elif sg is None and not T.is_count(b, ext):
                    b = T.minimum(b, ext)
            if T.is_const(a) and T.is_const(ext) and T.cval(a) > T.cval(ext):
                a = ext
            ln = T.sub(b, a)
            if T.sign_of(ln) in ('-',):
                ln = ZERO
            if s != 1:
                if T.is_const(ln):
                    ln = P(-(-int(T.cval(ln)) // s))
                else:
                    return None
            return a, ln, s
        if sl.a is NONE and sl.b is NONE and s == -1:
            return T.sub(ext, ONE), ext, -1
        return None

    def resolve(self, shape, k):
        """resolve an index expression against a shape.

        returns (vshape, mapping basevar->poly over view vars, advanced?) or None"""
        I = self.I
        ks = self.norm_key(len(shape), k)
        if ks is None:
            return None
        bvars = shape_vars(shape)
        # plan: list of output axis descriptors
        ax = 0
        plan = []        # ('new',) | ('slice', axis, start, len, step) | ('int', axis, poly) | ('adv', axis, arr) | ('mask', axes, arr)
        adv = False
        for x in ks:
            if x is NONE:
                plan.append(('new',))
            elif isinstance(x, SliceV):
                e = extent(shape[ax])
                si = self.slice_info(x, e)
                if si is None:
                    return None
                plan.append(('slice', ax) + si)
                ax += 1
            elif isinstance(x, Num):
                p = x.p
                e = extent(shape[ax])
                sg = T.sign_of(p)
                if sg == '-':
                    p = T.add(e, p)
                if T.is_const(p) and T.is_const(e) and T.cval(p) >= T.cval(e):
                    raise Raised('IndexError', 'index %s out of bounds for axis of length %s' % (p, e))
                plan.append(('int', ax, p))
                ax += 1
            elif isinstance(x, Arr):
                r = I.rec(x)
                if r.dtype == 'b':
                    adv = True
                    if len(r.shape) != 1:
                        plan.append(('bmask', ax, x))
                        ax += len(r.shape)
                    else:
                        if shape[ax] != r.shape[0]:
                            e1, e2 = extent(shape[ax]), extent(r.shape[0])
                            if not (self._opaque_dim(e1) or self._opaque_dim(e2)):
                                I.finding('shape', 'boolean mask of length %s indexes an axis of length %s' % (T.show(e2), T.show(e1)))
                            return None
                        idx = self.where1(x)
                        plan.append(('adv', ax, idx))
                        ax += 1
                else:
                    adv = True
                    plan.append(('adv', ax, x))
                    ax += 1
            elif isinstance(x, ExtObj):
                return None
            else:
                return None
        return plan, adv, bvars

    def build_view(self, shape, plan, bvars):
        """view shape, {basevar: poly}"""
        I = self.I
        hasadv = any(p[0] == 'adv' for p in plan)
        if any(p[0] == 'bmask' for p in plan):
            return None
        advpos = [i for i, p in enumerate(plan) if p[0] == 'adv' or (hasadv and p[0] == 'int')]
        ashape = None
        if hasadv:
            tri = self.harmonise([self.asarr(p[2]) for p in plan if p[0] == 'adv'])
            advv = dict(zip([i for i, p in enumerate(plan) if p[0] == 'adv'], tri))
            shapes = [advv[i][0] if p[0] == 'adv' else () for i, p in enumerate(plan) if p[0] in ('adv', 'int')]
            ashape = self.bshape(shapes, 'index arrays')
            if ashape is None:
                return None
            contiguous = advpos == list(range(advpos[0], advpos[-1] + 1))
        vshape = []
        slots = []      # parallel to plan: position of output axes
        if hasadv and not contiguous:
            vshape.extend(ashape)
            apos = 0
        placed = hasadv and not contiguous
        where = {}
        for i, p in enumerate(plan):
            if p[0] == 'new':
                vshape.append(())
            elif p[0] == 'slice':
                _, ax, a, ln, s = p
                full = a is ZERO and s == 1 and ln is extent(shape[ax])
                where[i] = len(vshape)
                vshape.append(shape[ax] if full else mkdim(ln))
            elif i in advpos:
                if not placed:
                    placed = True
                    apos = len(vshape)
                    vshape.extend(ashape)
        vshape = tuple(vshape)
        vv = shape_vars(vshape)
        mp = {}
        for i, p in enumerate(plan):
            if p[0] == 'slice':
                _, ax, a, ln, s = p
                bv, wv = bvars[ax], vv[where[i]]
                full = a is ZERO and s == 1 and ln is extent(shape[ax])
                if full:
                    for x, y in zip(bv, wv):
                        mp[x] = atom(y)
                else:
                    if not bv:
                        continue
                    if len(bv) != 1:
                        return None
                    if ln is ONE:
                        mp[bv[0]] = a
                    elif not wv:
                        mp[bv[0]] = a
                    else:
                        mp[bv[0]] = T.add(a, T.scale(atom(wv[0]), s))
            elif p[0] == 'int':
                bv = bvars[p[1]]
                if not bv:
                    continue
                if len(bv) != 1:
                    return None
                mp[bv[0]] = p[2]
            elif p[0] == 'adv':
                bv = bvars[p[1]]
                if not bv:
                    continue
                ish, it, _ = advv[i]
                if it is None:
                    return None
                # index array variables -> view variables at position apos.. (right aligned within ashape)
                iv = shape_vars(ish)
                m2 = {}
                off = apos + len(ashape) - len(ish)
                for q, d in enumerate(ish):
                    for x, y in zip(iv[q], vv[off + q]):
                        m2[x] = atom(y)
                t = T.subst(it, m2)
                if len(bv) != 1:
                    dec = self.split_index(t, shape[p[1]], vv)
                    if dec is None:
                        return None
                    for x, y in zip(bv, dec):
                        mp[x] = y
                    continue
                t = self.wrap_neg(t, extent(shape[p[1]]))
                mp[bv[0]] = t
        return vshape, mp, vv

    def wrap_neg(self, t, ext):
        return t

    def split_index(self, t, d, vv):
        """components of a flat index that runs along one view axis of the same layout"""
        for vs in vv:
            if len(vs) != len(d):
                continue
            i = atom(vs[0])
            for v, e in zip(vs[1:], d[1:]):
                i = T.add(T.mul(i, e), atom(v))
            if T.equal(i, t):
                return [atom(v) for v in vs]
        return None

    @staticmethod
    def range_simp_fn(term, ranges):
        return range_simplify(term, ranges)

    def range_simp(self, term, shape):
        """use 0 <= v < extent of the index variables to decide indicator atoms"""
        if term is None:
            return None
        ranges = {}
        for vs, d in zip(shape_vars(shape), shape):
            for v, c in zip(vs, d):
                ranges[v] = c
        return range_simplify(term, ranges)

    def arr_getitem(self, o, k):
        I = self.I
        shape = I.shape(o)
        if isinstance(k, Tup) and k.items and all(isinstance(x, Arr) and x.id in self.whereinfo for x in k.items):
            m = self.whereinfo[k.items[0].id][0]
            return I.top('masked selection')
        res = self.resolve(shape, k)
        if res is None:
            return I.top('index expression')
        plan, adv, bvars = res
        bv = self.build_view(shape, plan, bvars)
        if bv is None:
            return I.top('index layout')
        vshape, mp, vv = bv
        dt = I.rec(o).dtype
        if not adv:
            inv = self.invert(shape, bvars, vshape, vv, mp)
            if vshape == ():
                t = I.read(o)
                return self.mk((), None if t is None else T.subst(t, mp), dt)
            return I.arr(vshape, None, dt, base=(o.id, mp, inv))
        t = I.read(o)
        if t is not None:
            try:
                t = self.range_simp(T.subst(t, mp), vshape)
            except T.Blowup:
                t = None
        I.event('fancyread', arr=o)
        return self.mk(vshape, t, dt)

    def invert(self, shape, bvars, vshape, vv, mp):
        """(guard, {viewvar: poly over base vars}) solving mp for the view variables, or None"""
        eqs = []
        for ax, vs in enumerate(bvars):
            for b, c in zip(vs, shape[ax]):
                eqs.append((b, mp.get(b, ZERO), c))
        # rename view vars to fresh ones (they share names with the base vars)
        ren = {}
        exts = {}
        for vs, d in zip(vv, vshape):
            for v, c in zip(vs, d):
                ren[v] = fresh()
                exts[v] = c
        unk = [ren[v] for v in ren]
        eqs = [(b, T.subst(t, {v: atom(f) for v, f in ren.items()})) for b, t, c in eqs]
        sol = {}
        guard = ONE
        pending = eqs
        progress = True
        while pending and progress:
            progress = False
            rest = []
            for b, t in pending:
                if sol:
                    t = T.subst(t, sol)
                free = [u for u in unk if u in t.fv and u not in sol]
                if not free:
                    if t is not atom(b):
                        guard = T.mul(guard, T.ind_eq(T.sub(atom(b), t)))
                    progress = True
                    continue
                if len(free) == 1:
                    r = solve_index(t, free[0], atom(b))
                    if r is not None:
                        g, s = r
                        guard = T.mul(guard, g)
                        sol[free[0]] = s
                        progress = True
                        continue
                rest.append((b, t))
            pending = rest
        if pending or any(u not in sol for u in unk):
            return None
        out = {}
        for v, f in ren.items():
            s = sol[f]
            out[v] = s
            e = exts[v]
            # range guard
            bases = {x: c for ax, vs in enumerate(bvars) for x, c in zip(vs, shape[ax])}
            a = T.single_atom(s)
            if a is not None and a in bases and bases[a] is e:
                continue
            if a is not None and a.kind == 'B' and a.args[0] == 'rank':
                continue      # guarded by the mask
            guard = T.mul(guard, range_simplify(T.ind_ge(s), bases))
            guard = T.mul(guard, range_simplify(T.ind_gt(T.sub(e, s)), bases))
        return guard, out

    def setitem(self, o, k, v):
        I = self.I
        if isinstance(o, Phi):
            if isinstance(o.a, Arr) and isinstance(o.b, Arr):
                I.note('store through joined array')
                I.write(o.a, None)
                I.write(o.b, None)
                return
            o = o.b if o.a in (UNDEF, NONE) else o.a
        if isinstance(o, Dct):
            d = dict(I.heap[o.id].d)
            try:
                kk = I.key(k)
            except Unsupported:
                I.note('dict store')
                return
            d[kk] = v
            I.heap[o.id] = DictRec(d)
            I.event('mutate', ref=o)
            return
        if isinstance(o, Lst):
            r = I.heap[o.id]
            I.event('mutate', ref=o)
            i = self.intval(k) if isinstance(k, Num) else None
            if r.sym is None and i is not None and -len(r.items) <= i < len(r.items):
                items = list(r.items)
                items[i] = v
                I.heap[o.id] = ListRec(items)
            elif r.sym is not None and isinstance(k, Num):
                I.heap[o.id] = ListRec((), SymSeq(r.sym.n, r.sym.j, TopV('list store')))
            else:
                I.heap[o.id] = ListRec((), SymSeq(None, None, TopV('list')))
            return
        if isinstance(o, Arr):
            return self.arr_setitem(o, k, v)
        if isinstance(o, Obj):
            m, _ = I.heap[o.id].cls.find('__setitem__')
            if m is not None:
                I.call(m, (o, k, v))
                return
        I.note('store into %s' % type(o).__name__)

    def arr_setitem(self, o, k, v):
        I = self.I
        shape = I.shape(o)
        if isinstance(k, Phi) or isinstance(v, Phi):
            if self.phis > 4:
                I.note('store of joined values')
                I.write(o, None)
                return
            self.phis += 1
            try:
                if isinstance(k, Phi):
                    self.phi_map(k, lambda x: (self.arr_setitem(o, x, v), NONE)[1])
                else:
                    self.phi_map(v, lambda x: (self.arr_setitem(o, k, x), NONE)[1])
            finally:
                self.phis -= 1
            return
        # masks produced by where on n-d conditions
        mask = None
        if isinstance(k, Tup) and k.items and all(isinstance(x, Arr) and x.id in self.whereinfo for x in k.items):
            mask = self.whereinfo[k.items[0].id][0]
        elif isinstance(k, Arr) and I.rec(k).dtype == 'b' and (len(I.shape(k)) > 1 or isinstance(v, Num)):
            mask = k
        if mask is not None:
            ms, mt, _ = self.asarr(mask)
            if ms == shape[:len(ms)] and isinstance(v, Num) and mt is not None:
                # shift mask variables
                m2 = {}
                vo = shape_vars(shape)
                for q, vs in enumerate(shape_vars(ms)):
                    for x, y in zip(vs, vo[q]):
                        m2[x] = atom(y)
                mt = T.subst(mt, m2)
                old = I.read(o)
                try:
                    new = None if old is None else T.add(old, T.mul(mt, T.sub(v.p, old))) if v.p is not T.INF else T.add(T.mul(T.not_(mt), old), T.mul(mt, v.p))
                except T.Blowup:
                    new = None
                I.write(o, new)
                return
            if ms != shape[:len(ms)] and not any(self._opaque_dim(extent(d)) for d in ms + shape):
                I.finding('shape', 'mask of shape %s used on array of shape %s' % (self.shp(ms), self.shp(shape)))
            I.note('masked store')
            I.write(o, None)
            return
        if self.store_list(o, shape, k, v):
            return
        res = self.resolve(shape, k)
        if res is None:
            I.note('store: index expression @%s:%s' % I.site())
            I.write(o, None)
            return
        plan, adv, bvars = res
        bv = self.build_view(shape, plan, bvars)
        if bv is None:
            I.note('store: index layout @%s:%s' % I.site())
            I.write(o, None)
            return
        vshape, mp, vv = bv
        a = self.asarr(v)
        if a is None:
            if v is NONE:
                pass
            I.note('store of unknown value @%s:%s' % I.site())
            I.write(o, None)
            return
        vsh, vt, _ = a
        # value must broadcast to vshape
        lead = len(vsh) - len(vshape)
        if lead > 0 and all(d == () for d in vsh[:lead]):
            vsh = vsh[lead:]
        if vt is not None and len(vsh) <= len(vshape):
            h = self.harmonise([(vshape, ZERO), (vsh, vt)])
            if h[0][0] == vshape:
                vsh, vt = h[1][:2]
        bs = self.bshape([vshape, vsh], 'assignment')
        if bs is not None and bs != vshape:
            if len(bs) > len(vshape) and any(self._differ(extent(d), ONE) for d in bs[:len(bs) - len(vshape)]) or any(
                    not T.equal(extent(a), extent(b)) and self._differ(extent(a), extent(b)) for a, b in zip(bs[len(bs) - len(vshape):], vshape)):
                I.finding('shape', 'value of shape %s stored into selection of shape %s' % (self.shp(vsh), self.shp(vshape)))
            bs = None
        inv = self.invert(shape, bvars, vshape, vv, mp)
        I.event('store', arr=o, root=I.root_buf(o.id), inv=inv)
        if bs is None or inv is None or vt is None:
            if bs is not None:
                I.note('store not invertible @%s:%s' % I.site())
            I.write(o, None)
            return
        if I.rec(o).dtype == 'i' and a[2] == 'f' and not T.is_int(vt):
            vt = T.fn('trunc', vt)
        I.write_view(o, inv, vshape, vt)

    def store_list(self, o, shape, k, v):
        """store through one list of known integers: one store per entry"""
        I = self.I
        items = list(k.items) if isinstance(k, Tup) else [k]
        li = [i for i, x in enumerate(items) if isinstance(x, Lst)]
        if len(li) != 1 or not all(isinstance(x, SliceV) or x is ELL or isinstance(x, Lst) for x in items):
            return False
        li = li[0]
        r = I.heap[items[li].id]
        if r.sym is not None or not 1 <= len(r.items) <= 8 or not all(isinstance(x, Num) and self.intval(x) is not None and x.ty != 'bool' for x in r.items):
            return False
        ax = len(shape) - (len(items) - li) if ELL in items[:li] else li
        back = len(shape) - ax
        if not isinstance(v, (Arr, Num)):
            return False
        vs = I.shape(v) if isinstance(v, Arr) else ()
        per = len(vs) >= back and vs[len(vs) - back] != ()
        if per and not T.equal(extent(vs[len(vs) - back]), T.const(len(r.items))):
            return False
        full = SliceV(NONE, NONE, NONE)
        for q, x in enumerate(r.items):
            vv = v
            if per:
                vv = self.getitem(v, Tup([full] * (len(vs) - back) + [Num(q, 'int')] + [full] * (back - 1)))
            elif len(vs) >= back:
                vv = self.getitem(v, Tup([full] * (len(vs) - back) + [Num(0, 'int')] + [full] * (back - 1)))
            self.arr_setitem(o, Tup(items[:li] + [x] + items[li + 1:]), vv)
        return True

    # ------------------------------------------------------------ shape manipulation
    def parse_shape(self, v):
        """list of Poly extents from a shape argument (-1 kept as const)"""
        if isinstance(v, Num):
            return [v.p]
        it = self.iterate(v) if isinstance(v, (Tup, Lst, Arr)) else None
        if it is None:
            return None
        out = []
        for x in it:
            p = self.poly(x)
            if p is None:
                return None
            out.append(p)
        return out

    def reshape(self, a, dims):
        I = self.I
        shape = I.shape(a) if isinstance(a, Arr) else ()
        if isinstance(a, Num):
            if all(d is ONE or (T.is_const(d) and T.cval(d) == -1) for d in dims):
                return self.mk(((),) * len(dims), a.p)
            return I.top('reshape scalar')
        comps = [c for d in shape for c in d]
        vs = [v for q in shape_vars(shape) for v in q]
        # match from the left and the right around the -1
        neg = [i for i, d in enumerate(dims) if T.is_const(d) and T.cval(d) == -1]
        if len(neg) > 1:
            raise Raised('ValueError', 'reshape')
        n = len(dims)
        left = list(range(n)) if not neg else list(range(neg[0]))
        right = [] if not neg else list(range(n - 1, neg[0], -1))
        lo, hi = 0, len(comps)
        groups = [None] * n

        def consume(seq, d):
            acc = ONE
            k = 0
            if d is ONE:
                return 0
            for c in seq:
                acc = T.mul(acc, c)
                k += 1
                if acc is d or T.sign_of(T.sub(acc, d)) == '0':
                    return k
            return None
        bad = False
        for i in left:
            k = consume(comps[lo:hi], dims[i])
            if k is None:
                bad = True
                break
            groups[i] = (lo, lo + k)
            lo += k
        if not bad:
            for i in right:
                k = consume(comps[lo:hi][::-1], dims[i])
                if k is None:
                    bad = True
                    break
                groups[i] = (hi - k, hi)
                hi -= k
        if not bad:
            if neg:
                groups[neg[0]] = (lo, hi)
            elif lo != hi:
                bad = True
        if bad:
            tot, tgt = ONE, ONE
            for c in comps:
                tot = T.mul(tot, c)
            for i, d in enumerate(dims):
                if i not in neg:
                    tgt = T.mul(tgt, d)
            if not neg and tot is not tgt and not self._opaque_dim(tot) and not self._opaque_dim(tgt):
                I.finding('shape', 'reshape of %s elements to %s' % (T.show(tot), T.show(tgt)))
            new = []
            for i, d in enumerate(dims):
                if i in neg:
                    q = T.div(tot, tgt)
                    new.append(mkdim(q))
                else:
                    new.append(mkdim(d))
            t = I.read(a)
            size = ONE
            for q in new:
                size = T.mul(size, extent(q))
            if t is not None and T.equal(size, tot) and len(comps) <= 3:
                # element with the same row-major position
                flat = ZERO
                for q, w in zip(new, shape_vars(tuple(new))):
                    i = ZERO
                    for x, e in zip(w, q):
                        i = T.add(T.mul(i, e), atom(x))
                    flat = T.add(T.mul(flat, extent(q)), i)
                mp = {}
                for x, e in reversed(list(zip(vs[1:], comps[1:]))):
                    mp[x] = T.mod(flat, e)
                    flat = T.floordiv(flat, e)
                for x in vs[:1]:
                    mp[x] = flat
                return I.arr(tuple(new), T.subst(t, mp), I.rec(a).dtype)
            I.note('reshape layout @%s:%s' % I.site())
            return I.arr(tuple(new), None, I.rec(a).dtype, why='reshape')
        new = tuple(tuple(comps[g[0]:g[1]]) for g in groups)
        nvs = [v for q in shape_vars(new) for v in q]
        mp = {x: atom(y) for x, y in zip(vs, nvs)}
        inv = (ONE, {y: atom(x) for x, y in zip(vs, nvs)})
        if new == ():
            t = I.read(a)
            return self.mk((), t, I.rec(a).dtype)
        return I.arr(new, None, I.rec(a).dtype, base=(a.id, mp, inv))

    def permute_axes(self, a, order):
        I = self.I
        shape = I.shape(a)
        new = tuple(shape[i] for i in order)
        vo, vn = shape_vars(shape), shape_vars(new)
        mp, inv = {}, {}
        for j, i in enumerate(order):
            for x, y in zip(vo[i], vn[j]):
                mp[x] = atom(y)
                inv[y] = atom(x)
        return I.arr(new, None, I.rec(a).dtype, base=(a.id, mp, (ONE, inv)))

    def relayout(self, a, newshape, axmap):
        """view of a where old axis i becomes new axis axmap[i] (others dropped unit axes / inserted unit axes)"""
        I = self.I
        shape = I.shape(a)
        vo, vn = shape_vars(shape), shape_vars(newshape)
        mp, inv = {}, {}
        for i, j in axmap.items():
            for x, y in zip(vo[i], vn[j]):
                mp[x] = atom(y)
                inv[y] = atom(x)
        if newshape == ():
            return self.mk((), I.read(a), I.rec(a).dtype)
        return I.arr(newshape, None, I.rec(a).dtype, base=(a.id, mp, (ONE, inv)))

    def expand(self, a, axis):
        I = self.I
        if isinstance(a, Num):
            return self.mk(((),), a.p)
        shape = I.shape(a)
        axs = axis if isinstance(axis, (list, tuple)) else [axis]
        nd = len(shape) + len(axs)
        axs = sorted(x % nd for x in axs)
        new, m = [], {}
        i = 0
        for j in range(nd):
            if j in axs:
                new.append(())
            else:
                new.append(shape[i])
                m[i] = j
                i += 1
        return self.relayout(a, tuple(new), m)

    def squeeze(self, a, axis=None):
        I = self.I
        if isinstance(a, Num):
            return a
        shape = I.shape(a)
        if axis is None:
            drop = [i for i, d in enumerate(shape) if d == ()]
            # axes of symbolic length may be one as well: data dependent rank
            I.event('squeeze', arr=a, axis=None, shape=shape)
        else:
            axs = axis if isinstance(axis, (list, tuple)) else [axis]
            drop = [x % len(shape) for x in axs]
            for x in drop:
                if shape[x] != ():
                    I.finding('shape', 'squeeze of an axis of length %s' % T.show(extent(shape[x])))
                    return I.top('squeeze')
        new, m = [], {}
        for i, d in enumerate(shape):
            if i not in drop:
                m[i] = len(new)
                new.append(d)
        return self.relayout(a, tuple(new), m)

    def axes_arg(self, v, nd):
        """list of axis numbers, or None for all axes, or False if unknown"""
        if v is None or v is NONE:
            return None
        if isinstance(v, Num):
            i = self.intval(v)
            return False if i is None else [i % nd if nd else 0]
        it = self.iterate(v)
        if it is None:
            return False
        out = []
        for x in it:
            i = self.intval(x)
            if i is None:
                return False
            out.append(i % nd)
        return out

    def reduce(self, a, axis, keepdims, f, dtype=None, what='reduce'):
        """f(binders, term) -> term"""
        I = self.I
        if isinstance(a, Phi):
            return self.phi_map(a, lambda x: self.reduce(x, axis, keepdims, f, dtype, what))
        s = self.asarr(a)
        if s is None:
            return I.top(what)
        shape, t, dt = s
        axs = self.axes_arg(axis, len(shape))
        if axs is False:
            return I.top(what + ' axis')
        if axs is None:
            axs = list(range(len(shape)))
        if isinstance(axis, Num) and shape:
            i = self.intval(axis)
            if i is not None and not (-len(shape) <= i < len(shape)):
                raise Raised('AxisError', 'axis %d' % i)
        kd = keepdims is not None and keepdims is not NONE and self.I.truth(keepdims) is ONE
        old = shape_vars(shape)
        new = []
        mp = {}
        binders = []
        m = {}
        for i, d in enumerate(shape):
            if i in axs:
                for v, c in zip(old[i], d):
                    b = fresh()
                    mp[v] = atom(b)
                    binders.append((b, c))
                if kd:
                    new.append(())
            else:
                m[i] = len(new)
                new.append(d)
        nv = shape_vars(new)
        for i, j in m.items():
            for x, y in zip(old[i], nv[j]):
                mp[x] = atom(y)
        if t is None:
            return self.mk(tuple(new), None, dtype or dt, why=what)
        try:
            r = f(binders, T.subst(t, mp))
        except T.Blowup:
            I.note('blowup in ' + what)
            r = None
        return self.mk(tuple(new), r, dtype or dt)

    def argred(self, a, axis, sign):
        I = self.I
        s = self.asarr(a)
        if s is None:
            return I.top('argmin')
        shape, t, dt = s
        if axis is None or axis is NONE:
            if len(shape) != 1:
                if all(d == () for d in shape):
                    return Num(ZERO, 'int')
                # flat argmax
                return I.top('flat arg reduction')
            axis = Num(0, 'int')

        def f(binders, body):
            body = body if sign > 0 else T.neg(body)
            if not binders:
                return ZERO
            if len(binders) > 1:
                raise T.Blowup()
            return T.argmax_(binders[0], body)
        return self.reduce(a, axis, None, f, 'i', 'argmax')

    def matmul(self, a, b):
        I = self.I
        if isinstance(a, Phi):
            return self.phi_map(a, lambda x: self.matmul(x, b))
        if isinstance(b, Phi):
            return self.phi_map(b, lambda x: self.matmul(a, x))
        A, B = self.asarr(a), self.asarr(b)
        if A is None or B is None:
            return I.top('matmul')
        sa, ta, _ = A
        sb, tb, _ = B
        if sa == () or sb == ():
            raise Raised('ValueError', 'matmul of scalar')
        a1, b1 = len(sa) == 1, len(sb) == 1
        if a1:
            sa = ((),) + sa
        if b1:
            sb = sb + ((),)
        k1, k2 = sa[-1], sb[-2]
        if k1 != k2:
            e1, e2 = extent(k1), extent(k2)
            if not (self._opaque_dim(e1) or self._opaque_dim(e2)) and T.sign_of(T.sub(e1, e2)) != '0':
                I.finding('shape', 'matmul of inner lengths %s and %s' % (T.show(e1), T.show(e2)))
            return I.top('matmul shapes')
        lead = self.bshape([sa[:-2], sb[:-2]], 'matmul')
        if lead is None:
            return I.top('matmul broadcast')
        out = lead + (sa[-2], sb[-1])
        vo = shape_vars(out)
        bs = [(fresh(), c) for c in k1]
        # term of a with (.., i, k), b with (.., k, j)
        if ta is None or tb is None:
            r = None
        else:
            ma, mb = {}, {}
            va, vb = shape_vars(sa), shape_vars(sb)
            if a1:
                va0 = shape_vars(A[0])
                for x, (y, c) in zip(va0[0], bs):
                    ma[x] = atom(y)
            else:
                for x, (y, c) in zip(va[-1], bs):
                    ma[x] = atom(y)
                for x, y in zip(va[-2], vo[-2]):
                    ma[x] = atom(y)
                for q in range(len(sa) - 2):
                    for x, y in zip(va[q], vo[len(out) - len(sa) + q]):
                        ma[x] = atom(y)
            if b1:
                vb0 = shape_vars(B[0])
                for x, (y, c) in zip(vb0[0], bs):
                    mb[x] = atom(y)
            else:
                for x, (y, c) in zip(vb[-2], bs):
                    mb[x] = atom(y)
                for x, y in zip(vb[-1], vo[-1]):
                    mb[x] = atom(y)
                for q in range(len(sb) - 2):
                    for x, y in zip(vb[q], vo[len(out) - len(sb) + q]):
                        mb[x] = atom(y)
            try:
                r = T.sum_(bs, T.mul(T.subst(ta, ma), T.subst(tb, mb)))
            except T.Blowup:
                r = None
        res = self.mk(out, r)
        if a1 and isinstance(res, Arr):
            res = self.squeeze(res, len(out) - 2)
        if b1 and isinstance(res, Arr):
            res = self.squeeze(res, len(I.shape(res)) - 1)
        return res

    def einsum(self, spec, ops):
        I = self.I
        spec = spec.replace(' ', '')
        lhs, _, rhs = spec.partition('->')
        ins = lhs.split(',')
        A = [self.asarr(o) for o in ops]
        if any(x is None for x in A) or len(A) != len(ins) or '->' not in spec:
            return I.top('einsum')
        lab = {}
        ell = ()
        labs = []
        for s, (sh, t, _) in zip(ins, A):
            if '...' in s:
                i = s.index('...')
                pre, post = s[:i], s[i + 3:]
                ne = len(sh) - len(pre) - len(post)
                ell = self.bshape([ell, sh[len(pre):len(pre) + ne]], 'einsum')
                if ell is None:
                    return I.top('einsum broadcast')
                l = list(pre) + [('e', ne - q) for q in range(ne)] + list(post)
            else:
                l = list(s)
            if len(l) != len(sh):
                raise Raised('ValueError', 'einsum operand rank')
            labs.append(l)
            for x, d in zip(l, sh):
                if isinstance(x, tuple):
                    continue
                if x in lab and lab[x] != d and lab[x] != () and d != ():
                    e1, e2 = extent(lab[x]), extent(d)
                    if not (self._opaque_dim(e1) or self._opaque_dim(e2)) and T.sign_of(T.sub(e1, e2)) != '0':
                        I.finding('shape', 'einsum label %s has lengths %s and %s' % (x, T.show(e1), T.show(e2)))
                    return I.top('einsum shapes')
                if x not in lab or lab[x] == ():
                    lab[x] = d
        if '...' in rhs:
            i = rhs.index('...')
            outl = list(rhs[:i]) + [('e', len(ell) - q) for q in range(len(ell))] + list(rhs[i + 3:])
        else:
            outl = list(rhs)
        odims = tuple(ell[len(ell) - x[1]] if isinstance(x, tuple) else lab[x] for x in outl)
        ov = shape_vars(odims)
        lv = {}
        for x, vs in zip(outl, ov):
            lv[x] = [atom(v) for v in vs]
        binders = []
        for x, d in lab.items():
            if x not in lv:
                bs = [(fresh(), c) for c in d]
                binders += bs
                lv[x] = [atom(b) for b, c in bs]
        if any(t is None for _, t, _ in A):
            return self.mk(odims, None)
        body = ONE
        try:
            for l, (sh, t, _) in zip(labs, A):
                mp = {}
                for x, vs in zip(l, shape_vars(sh)):
                    for v, w in zip(vs, lv.get(x, [])):
                        mp[v] = w
                body = T.mul(body, T.subst(t, mp))
            r = T.sum_(binders, body)
        except T.Blowup:
            r = None
        return self.mk(odims, r)

    # ------------------------------------------------------------ construction
    def full(self, dims, term, dtype='f'):
        return self.mk(tuple(mkdim(d) for d in dims), term, dtype)

    def rng_array(self, dims, kind, src, **info):
        """fresh random array of the given shape (list of Poly)"""
        I = self.I
        I.rngcount += 1
        name = ('rng', I.rngcount)
        shape = tuple(mkdim(d) for d in dims)
        vs = [atom(v) for q in shape_vars(shape) for v in q]
        I.event('rng', name=name, kind_=kind, src=src, shape=shape, **info)
        return self.mk(shape, T.arr(name, vs))

    def size_arg(self, v):
        if v is None or v is NONE:
            return []
        return self.parse_shape(v)

    def dtype_of(self, v, default='f'):
        if v is None or v is NONE:
            return default
        if isinstance(v, Ext):
            n = v.name.split('.')[-1]
            if n in ('bool', 'bool_'):
                return 'b'
            if n.startswith('int') or n.startswith('uint') or n == 'long':
                return 'i'
            return 'f'
        if isinstance(v, ExtObj) and v.kind == 'dtype':
            return v.data['dt']
        return default

    def where1(self, cond):
        """index array of the true entries of a 1-d condition"""
        I = self.I
        shape, t, dt = self.asarr(cond)
        if t is None:
            return self.mk((mkdim(T.dim('?w%d' % I.new_id())),), None, 'i', why='where')
        d = shape[0]
        if d == ():
            n = T.truth(t)
            return self.mk((mkdim(n),), ZERO, 'i') if n is not ONE else self.mk(((),), ZERO, 'i')
        if len(d) != 1:
            return self.mk((mkdim(T.dim('?w%d' % I.new_id())),), None, 'i', why='where')
        v = shape_vars(shape)[0][0]
        mask = T.truth(t)
        b = fresh()
        mb = T.subst(mask, {v: atom(b)})
        n = T.sum_([(b, d[0])], mb)
        if mask is ONE:
            return self.mk(shape, atom(v), 'i')
        k = fresh()
        dim = mkdim(n)
        vv = shape_vars((dim,))[0]
        kk = atom(vv[0]) if vv else ZERO
        return I.arr((dim,), T.enum(d[0], b, mb, kk), 'i')

    def idx_mask(self, a):
        """(extent, var, mask) for a 1-d index array enumerating a mask, else None"""
        I = self.I
        shape, t, dt = self.asarr(a)
        if t is None or len(shape) != 1 or shape[0] == ():
            return None
        at = T.single_atom(t)
        v = shape_vars(shape)[0][0]
        if at is not None and at.kind == 'B' and at.args[0] == 'enum' and at.args[3][0] is atom(v):
            (x,), (m,) = T.open_binder(at)
            return at.args[1][0], x, m
        if t is atom(v):
            x = fresh()
            return shape[0][0], x, ONE
        return None

    # ------------------------------------------------------------ numpy functions
    def bindargs(self, args, kw, names, dflt=None):
        out = {}
        for n, v in zip(names, args):
            out[n] = v
        for k, v in kw.items():
            k = {'dim': 'axis', 'keepdim': 'keepdims', 'input': 'a'}.get(k, k)
            out[k] = v
        return out

    def call(self, name, args, kw):
        I = self.I
        mod, _, fn = name.rpartition('.')
        for i, a in enumerate(args):
            if isinstance(a, ExtObj) and a.kind == 'iter':
                args[i] = a.data['v']
        if mod == 'builtins':
            m = getattr(self, 'b_' + fn, None)
            if m:
                return m(args, kw)
            if fn in EXCS:
                return ExtObj('exception', name=fn)
            return I.top('builtin ' + fn)
        root = name.split('.')[0]
        if root in ('numpy', 'torch', 'scipy', 'math', 'copy', 'functools', 'itertools', 'collections', 'operator'):
            if name in ('numpy.random.default_rng',):
                seed = args[0] if args else kw.get('seed', NONE)
                return ExtObj('rng', seed=seed, src='default_rng')
            if root == 'torch' and fn in ('randn', 'rand', 'randint', 'randperm', 'normal', 'bernoulli') and isinstance(kw.get('generator'), ExtObj) and kw['generator'].kind == 'rng':
                return self.random(fn, args, {k: v for k, v in kw.items() if k != 'generator'}, kw['generator'])
            if mod == 'numpy.random' or name.startswith('torch.rand'):
                return self.random(fn, args, kw, 'global' if root == 'numpy' else 'torch-global')
            if name == 'torch.Generator':
                return ExtObj('rng', seed=NONE, src='torch')
            if root == 'torch' and fn in ('manual_seed', 'seed'):
                I.event('rngseed', src='torch-global', fn=fn)
                return ExtObj('ctx')
            if root == 'torch' and fn in ('no_grad', 'device'):
                return ExtObj('ctx')
            if name == 'torch.distributions.Exponential':
                return ExtObj('torchexp')
            if mod in ('torch.func',):
                h = getattr(I, 'ext', {}).get(name)
                if h is not None:
                    return h(I, args, kw)
                if name == 'torch.func.vmap':
                    return self.vmap(args, kw)
                return I.top(name)
            if name in ('functools.wraps',):
                return Py(lambda I, a, k: a[0], 'wraps-deco')
            if name == 'collections.OrderedDict':
                return self.b_dict(args, kw)
            if name in ('copy.copy', 'copy.deepcopy'):
                return self.py_copy(args[0])
            if name == 'functools.partial':
                f, pre, pk = args[0], list(args[1:]), dict(kw)
                return Py(lambda I, a, k: I.call(f, pre + list(a), {**pk, **k}), 'partial')
            if name == 'scipy.stats.multivariate_normal' or root == 'scipy' and fn == 'multivariate_normal':
                b = self.bindargs(args, kw, ['mean', 'cov'])
                return ExtObj('mvn', **b)
            if root == 'scipy' and fn == 'pdf':
                return self.sp_mvn_pdf(args, kw)
            if root == 'scipy' and fn == 'logpdf':
                r = self.sp_mvn_pdf(args, kw)
                return r if isinstance(r, TopV) else self.lift(T.log, [r], 'f', 'mvn logpdf')
            m = getattr(self, ('linalg_' if mod.endswith('linalg') else 'np_') + fn, None)
            for q in ('axis', 'ord', 'keepdims', 'ddof', 'shape', 'size', 'dtype'):
                if isinstance(kw.get(q), Phi):          # the option depends on a condition
                    return self.phi_map(kw[q], lambda v: self.call(name, list(args), {**kw, q: v}))
            if m is not None:
                if any(isinstance(a, TopV) for a in args[:1]):
                    return TopV('argument of ' + name)
                return m(args, kw)
            if fn in ELEMWISE:
                x = args[0] if args else kw.get('x', kw.get('a'))
                if fn == 'exp':
                    I.event('exp', arg=x, term=I.read(x) if isinstance(x, Arr) else getattr(x, 'p', None), shape=I.shape(x) if isinstance(x, Arr) else ())
                elif fn == 'log':
                    I.event('log', arg=x)
                return self.out(self.lift(ELEMWISE[fn], [x], 'b' if fn in ('isnan', 'logical_not', 'isfinite') else None if fn in ('abs', 'absolute', 'sign', 'square', 'negative') else 'f', fn), kw)
            if fn in BINF:
                return self.out(self.lift(BINF[fn], list(args[:2]), 'b' if fn in BOOLRES else 'f' if fn in ('divide', 'true_divide') else None, fn), kw)
            if fn in ('float64', 'float32', 'float16', 'double', 'single'):
                return self.lift(lambda p: p, [args[0]], 'f')
            if fn in ('int64', 'int32', 'intp'):
                return self.b_int(args, kw)
            if fn in ('errstate', 'seterr', 'printoptions'):
                return ExtObj('ctx')
            if fn in ('Generator', 'MT19937', 'PCG64', 'Philox', 'SFC64', 'RandomState', 'SeedSequence'):
                pass
            I.unmodelled[name] = I.unmodelled.get(name, 0) + 1
            return I.top('unmodelled ' + name)
        if root in READONLY_EXT:
            if name == 'warnings.warn':
                I.event('warn')
                return NONE
            I.event('extcall', name=name, args=list(args), kw=dict(kw))
            return ExtObj('opaque', name=name)
        I.unmodelled[name] = I.unmodelled.get(name, 0) + 1
        return I.top('unmodelled ' + name)

    def vmap(self, args, kw):
        """vmap(f, in_dims): f applied to every slice along axis 0 of the marked arguments, results stacked"""
        I = self.I
        b = self.bindargs(args, kw, ['func', 'in_dims', 'out_dims'])
        f, dims = b['func'], b.get('in_dims', Num(0))

        def run(I, a, k):
            ds = list(dims.items) if isinstance(dims, Tup) else [dims] * len(a)
            j = fresh()
            ext, call = None, []
            for v, q in zip(a, ds):
                if q is NONE:
                    call.append(v)
                    continue
                s = self.asarr(v)
                if not isinstance(q, Num) or T.cval(q.p) != 0 or s is None:
                    return I.top('vmap')
                ext = extent(s[0][0])
                call.append(self.getitem(v, Num(atom(j), 'int')))
            if ext is None:
                raise Raised('ValueError', 'vmap without a mapped argument')
            r = I.call(f, call, k)
            s = self.asarr(r)
            if s is None or s[1] is None:
                return I.top('vmap result')
            shape, t, dt = s
            nv = shape_vars((mkdim(ext),) + tuple(shape))
            lead, old, new = nv[0], shape_vars(shape), nv[1:]
            ren = {x: atom(y) for p, q in zip(old, new) for x, y in zip(p, q) if x is not y}
            ren[j] = atom(lead[0]) if lead else ZERO
            return I.arr((mkdim(ext),) + tuple(shape), T.subst(t, ren), dt)
        return Py(run, 'vmap')

    def out(self, r, kw):
        o = kw.get('out')
        if isinstance(o, Arr):
            self.I.write(o, self.asarr(r)[1] if self.asarr(r) else None)
            return o
        return r

    def random(self, fn, args, kw, src):
        I = self.I
        if fn in ('seed', 'manual_seed', 'get_state', 'set_state'):
            I.event('rngseed', src=src, fn=fn)
            return NONE
        if fn in ('Generator', 'RandomState'):
            a = args[0] if args else NONE
            return ExtObj('rng', seed=a.data.get('seed', NONE) if isinstance(a, ExtObj) else a, src='Generator')
        if fn in ('MT19937', 'PCG64', 'Philox', 'SFC64', 'SeedSequence'):
            return ExtObj('bitgen', seed=args[0] if args else kw.get('seed', NONE))
        if fn in ('standard_normal', 'random', 'random_sample', 'sample'):
            size = args[0] if args else kw.get('size', NONE)
            return self._rand(size, 'normal' if fn == 'standard_normal' else 'uniform01', src)
        if fn in ('randn', 'rand') and (src == 'torch-global' or isinstance(src, ExtObj) and src.data.get('src') == 'torch'):
            b = self.bindargs(args, kw, ['size'])
            return self._rand(b.get('size', NONE), 'normal' if fn == 'randn' else 'uniform01', src)
        if fn in ('randn', 'rand'):
            return self._rand(Tup(args), 'normal' if fn == 'randn' else 'uniform01', src)
        if fn in ('normal',):
            b = self.bindargs(args, kw, ['loc', 'scale', 'size'])
            z = self._rand(b.get('size', NONE), 'normal', src, b)
            r = z
            if 'scale' in b:
                r = self.binop('Mult', b['scale'], r)
            if 'loc' in b:
                r = self.binop('Add', b['loc'], r)
            return r
        if fn == 'uniform':
            b = self.bindargs(args, kw, ['low', 'high', 'size'])
            z = self._rand(b.get('size', NONE), 'uniform01', src, b)
            lo, hi = b.get('low', Num(0)), b.get('high', Num(1))
            return self.binop('Add', lo, self.binop('Mult', self.binop('Sub', hi, lo), z))
        if fn in ('exponential', 'standard_exponential'):
            b = self.bindargs(args, kw, ['scale', 'size'] if fn == 'exponential' else ['size'])
            z = self._rand(b.get('size', NONE), 'exponential', src, b)
            return self.binop('Mult', b['scale'], z) if 'scale' in b else z
        if fn == 'multivariate_normal':
            b = self.bindargs(args, kw, ['mean', 'cov', 'size'])
            dims = self.size_arg(b.get('size'))
            ms = self.asarr(b['mean'])
            if dims is None or ms is None:
                return I.top('multivariate_normal')
            dims = dims + [extent(ms[0][0])]
            return self.rng_array(dims, 'mvn', src, mean=b['mean'], cov=b['cov'])
        if fn in ('choice', 'randint', 'integers'):
            b = self.bindargs(args, kw, ['a', 'size', 'replace', 'p'] if fn == 'choice' else ['low', 'high', 'size'])
            r = self._rand(b.get('size', NONE), fn, src, b, args=args)
            if fn == 'integers' or fn == 'choice' and isinstance(b.get('a'), Num) and b.get('p', NONE) is NONE:
                lo, hi = (Num(ZERO, 'int'), b['a']) if fn == 'choice' else (b.get('low'), b.get('high', NONE))
                if hi is NONE:
                    lo, hi = Num(ZERO, 'int'), lo
                if isinstance(r, Arr) and isinstance(lo, Num) and isinstance(hi, Num) and I.events[-1].kind == 'rng':
                    T.ARR_PROP[I.events[-1].data['name']] = {'unit'}
                    r = self.lift(lambda u: T.add(lo.p, T.floor(T.mul(T.sub(hi.p, lo.p), u))), [r], 'i')
            return r
        if fn in ('permuted', 'permutation', 'shuffle'):
            x = args[0]
            b = self.bindargs(args, kw, ['x', 'axis', 'out'])
            a = self.asarr(x)
            if fn == 'permutation' and isinstance(x, Num):
                shape, t = (mkdim(x.p),), None
                vs = shape_vars(shape)[0]
                t = atom(vs[0]) if vs else ZERO
            elif a is None:
                return I.top('permutation')
            else:
                shape, t = a[0], a[1]
            ax = self.intval(b['axis']) if 'axis' in b and isinstance(b['axis'], Num) else (None if fn == 'permuted' else 0)
            I.rngcount += 1
            name = ('perm', I.rngcount)
            I.event('rng', name=name, kind_='perm', src=src, shape=shape)
            vv = shape_vars(shape)
            if ax is not None and len(shape) in (1, 2) and (ax % len(shape)) == len(shape) - 1 and shape[-1] != () and len(shape[-1]) == 1 and t is atom(vv[-1][0]):
                # rows are arange: an injective index array per row
                T.ARR_PROP[name] = {'perm', 'int', 'nonneg'}
                PERM_EXT[name] = shape[-1][0]
                r = self.mk(shape, T.arr(name, [atom(v) for q in vv for v in q]), 'i')
            else:
                T.ARR_PROP[name] = {'int'}
                r = self.mk(shape, T.arr(name, [atom(v) for q in vv for v in q]), 'i')
                I.event('badperm', shape=shape, axis=ax)
            if fn == 'shuffle':
                I.write(x, I.read(r))
                return NONE
            return r
        I.unmodelled['random.' + fn] = 1
        return I.top('random ' + fn)

    def _rand(self, size, kind, src, info=None, **kw):
        dims = self.size_arg(size)
        if dims is None:
            return self.I.top('random size')
        return self.rng_array(dims, kind, src, params=info)

    # construction
    def np_zeros(self, args, kw):
        b = self.bindargs(args, kw, ['shape', 'dtype'])
        dims = self.parse_shape(b.get('shape', b.get('size')))
        if dims is None:
            return self.I.top('zeros shape')
        return self.full(dims, ZERO, self.dtype_of(b.get('dtype')))

    np_empty = np_zeros

    def np_ones(self, args, kw):
        b = self.bindargs(args, kw, ['shape', 'dtype'])
        dims = self.parse_shape(b.get('shape', b.get('size')))
        if dims is None:
            return self.I.top('ones shape')
        return self.full(dims, ONE, self.dtype_of(b.get('dtype')))

    def np_full(self, args, kw):
        b = self.bindargs(args, kw, ['shape', 'fill_value', 'dtype'])
        dims = self.parse_shape(b['shape'])
        if dims is None:
            return self.I.top('full')
        z = self.full(dims, ZERO)
        return self.binop('Add', z, b['fill_value'])

    def np_zeros_like(self, args, kw):
        a = self.asarr(args[0])
        if a is None:
            return self.I.top('zeros_like')
        return self.mk(a[0], ZERO, self.dtype_of(kw.get('dtype'), a[2]))

    np_empty_like = np_zeros_like

    def np_ones_like(self, args, kw):
        a = self.asarr(args[0])
        if a is None:
            return self.I.top('ones_like')
        return self.mk(a[0], ONE, self.dtype_of(kw.get('dtype'), a[2]))

    def np_full_like(self, args, kw):
        b = self.bindargs(args, kw, ['a', 'fill_value', 'dtype'])
        return self.binop('Add', self.np_zeros_like([b['a']], {}), b['fill_value'])

    def np_eye(self, args, kw):
        n = self.poly(args[0]) if args else None
        if n is None:
            return self.I.top('eye')
        m = self.poly(args[1]) if len(args) > 1 and args[1] is not NONE else n
        sh = (mkdim(n), mkdim(m))
        v = shape_vars(sh)
        a = atom(v[0][0]) if v[0] else ZERO
        b = atom(v[1][0]) if v[1] else ZERO
        return self.mk(sh, T.ind_eq(T.sub(a, b)))

    np_identity = np_eye

    def np_arange(self, args, kw):
        if len(args) == 1:
            a, b, s = Num(0, 'int'), args[0], Num(1, 'int')
        else:
            a, b = args[0], args[1]
            s = args[2] if len(args) > 2 else Num(1, 'int')
        pa, pb, ps = self.poly(a), self.poly(b), self.poly(s)
        if pa is None or pb is None or ps is None:
            return self.I.top('arange')
        n = self.range_len(RangeV(pa, pb, ps))
        if n is None:
            n = T.fn('ceil', T.div(T.sub(pb, pa), ps))
        sh = (mkdim(n),)
        v = shape_vars(sh)[0]
        t = T.add(pa, T.mul(ps, atom(v[0]))) if v else pa
        return self.mk(sh, t, 'i' if T.is_int(pa) and T.is_int(ps) else 'f')

    def np_linspace(self, args, kw):
        b = self.bindargs(args, kw, ['a', 'b', 'num'])
        if NONE in (b['a'], b['b'], b.get('num')):
            raise Raised('TypeError', 'None operand')
        n = self.poly(b.get('num', Num(50, 'int')))
        pa, pb = self.poly(b['a']), self.poly(b['b'])
        if n is None or pa is None or pb is None:
            return self.I.top('linspace')
        sh = (mkdim(n),)
        v = shape_vars(sh)[0]
        t = T.add(pa, T.mul(T.sub(pb, pa), T.div(atom(v[0]) if v else ZERO, T.sub(n, ONE) if n is not ONE else ONE)))
        return self.mk(sh, t)

    def np_meshgrid(self, args, kw):
        ix_ = kw.get('indexing')
        xs = [self.asarr(a) for a in args]
        if any(x is None or x[1] is None for x in xs):
            return self.I.top('meshgrid')
        order = list(range(len(xs)))
        if not (isinstance(ix_, Str) and ix_.s == 'ij') and len(xs) >= 2:
            order[0], order[1] = 1, 0
        sh = tuple(xs[i][0][0] for i in order)
        vs = shape_vars(sh)
        out = []
        for i, x in enumerate(xs):
            pos = order.index(i)
            mp = {}
            for a, b in zip(shape_vars(x[0])[0], vs[pos]):
                mp[a] = atom(b)
            out.append(self.mk(sh, T.subst(x[1], mp)))
        return self.I.mklist(out)

    def np_array(self, args, kw):
        I = self.I
        v = args[0]
        dt = kw.get('dtype', args[1] if len(args) > 1 else None)
        if isinstance(v, Phi):
            return self.phi_map(v, lambda x: self.np_array([x] + args[1:], kw))
        if isinstance(v, Arr):
            r = I.rec(v)
            cp = kw.get('copy')
            if (cp is NONE or isinstance(cp, Num) and cp.p is ZERO) and (dt is None or dt is NONE or self.dtype_of(dt, None) == r.dtype):
                return v
            return self.mk(r.shape, I.read(v), self.dtype_of(dt, r.dtype))
        if isinstance(v, Num):
            return v
        if isinstance(v, RangeV):
            a = self.asarr(v)
            return self.mk(a[0], a[1], a[2]) if a else I.top('array of range')
        if isinstance(v, Lst) and I.heap[v.id].sym is not None and not I.heap[v.id].items:
            v = I.heap[v.id].sym
        if isinstance(v, SymSeq):
            if v.n is None:
                return I.top('array of list')
            e = self.asarr(v.elem)
            if e is None or e[1] is None:
                return I.top('array of list')
            sh = (mkdim(v.n),) + e[0]
            vv = shape_vars(sh)[0]
            return self.mk(sh, T.subst(e[1], {v.j: atom(vv[0]) if vv else ZERO}), e[2])
        it = self.iterate(v) if isinstance(v, (Tup, Lst, ExtObj)) else None
        if it is None or any(isinstance(x, Guarded) for x in it):
            return I.top('np.array of ' + type(v).__name__)
        return self.stack_list([self.asarr(x) for x in it], 0, self.dtype_of(dt, None))

    def stack_list(self, els, axis, dt=None):
        I = self.I
        if any(e is None for e in els):
            return I.top('stack of unknown')
        if not els:
            return self.mk((mkdim(ZERO),), ZERO)
        shape = els[0][0]
        for e in els[1:]:
            if e[0] != shape:
                if len(e[0]) != len(shape) or any(not T.equal(extent(p), extent(q)) and self._differ(extent(p), extent(q)) for p, q in zip(shape, e[0])):
                    I.finding('shape', 'stack of arrays with shapes %s and %s' % (self.shp(shape), self.shp(e[0])))
                return I.top('ragged stack')
        nd = len(shape) + 1
        axis = axis % nd
        out = shape[:axis] + (mkdim(P(len(els))),) + shape[axis:]
        vo = shape_vars(out)
        vi = shape_vars(shape)
        rem = [q for i, q in enumerate(vo) if i != axis]
        mp = {}
        for a, b in zip(vi, rem):
            for x, y in zip(a, b):
                mp[x] = atom(y)
        d = dt or ('f' if any(e[2] == 'f' for e in els) else els[0][2])
        if any(e[1] is None for e in els):
            return self.mk(out, None, d)
        t = ZERO
        for i, e in enumerate(els):
            te = T.subst(e[1], mp)
            if len(els) == 1:
                t = te
            else:
                t = T.add(t, T.mul(T.ind_eq(T.sub(atom(vo[axis][0]), P(i))), te))
        return self.mk(out, t, d)

    def np_asarray(self, args, kw):
        if isinstance(args[0], Arr):
            # no copy unless the type changes
            dt = kw.get('dtype', args[1] if len(args) > 1 else None)
            if dt is None or dt is NONE or self.dtype_of(dt, None) == self.I.rec(args[0]).dtype:
                return args[0]
        if isinstance(args[0], Phi):
            return self.phi_map(args[0], lambda x: self.np_asarray([x] + list(args[1:]), kw))
        return self.np_array(args, kw)

    np_asanyarray = np_asarray
    np_ascontiguousarray = np_asarray

    def np_tensor(self, args, kw):
        return self.np_array([args[0]], {})

    np_from_numpy = np_asarray
    np_as_tensor = np_asarray

    def np_copy(self, args, kw):
        v = args[0] if args else kw.get('a')
        I = self.I
        if isinstance(v, Arr):
            r = I.rec(v)
            return I.arr(r.shape, I.read(v), r.dtype)
        if isinstance(v, Phi):
            return self.phi_map(v, lambda x: self.np_copy([x], {}))
        return self.np_array([v], {})

    np_clone = np_copy

    def py_copy(self, v):
        I = self.I
        if isinstance(v, Arr):
            return self.np_copy([v], {})
        if isinstance(v, Lst):
            r = I.heap[v.id]
            return I.mklist(r.items, r.sym)
        if isinstance(v, Dct):
            return I.mkdict(dict(I.heap[v.id].d))
        if isinstance(v, Obj):
            r = I.heap[v.id]
            return Obj(I.alloc(ObjRec(r.cls, dict(r.attrs))))
        return v

    def np_stack(self, args, kw):
        b = self.bindargs(args, kw, ['a', 'axis'])
        ax = self.intval(b['axis']) if 'axis' in b else 0
        it = self.iterate(b['a'])
        if it is None:
            if isinstance(b['a'], (Lst, SymSeq)) and ax == 0:
                return self.np_array([b['a']], {})
            return self.I.top('stack')
        return self.stack_list([self.asarr(x) for x in it], ax)

    def np_vstack(self, args, kw):
        it = self.iterate(args[0])
        if it is None:
            return self.I.top('vstack')
        return self.np_concatenate([Tup([self.np_atleast_2d([x], {}) for x in it])], {})

    # ---- derived from indexing, broadcasting and the reductions
    def _axes_key(self, rank, ax, k):
        full = SliceV(NONE, NONE, NONE)
        return Tup([full] * ax + [k] + [full] * (rank - ax - 1))

    def np_split(self, args, kw):
        """pieces between the given cut positions"""
        b = self.bindargs(args, kw, ['ary', 'indices_or_sections', 'axis'])
        s = self.asarr(b['ary'])
        ax = self.intval(b['axis']) if 'axis' in b else 0
        cuts = b['indices_or_sections']
        cuts = None if isinstance(cuts, (Num, Arr)) else self.iterate(cuts)
        if s is None or ax is None or cuts is None or not s[0] or not all(isinstance(c, Num) for c in cuts):
            return self.I.top('split')
        ax %= len(s[0])
        out = []
        pos = [NONE] + list(cuts) + [NONE]
        for lo, hi in zip(pos, pos[1:]):
            out.append(self.getitem(b['ary'], self._axes_key(len(s[0]), ax, SliceV(lo, hi, NONE))))
        return self.I.mklist(out)

    np_array_split = np_split

    def np_take(self, args, kw):
        b = self.bindargs(args, kw, ['a', 'indices', 'axis', 'out', 'mode'])
        s = self.asarr(b['a'])
        if s is None or 'out' in b or 'mode' in b:
            return self.I.top('take')
        a, ax = b['a'], b.get('axis', NONE)
        if ax is NONE:
            if len(s[0]) != 1:
                a = self.np_reshape([a, Num(-1, 'int')], {})
            ax = 0
        else:
            ax = self.intval(ax)
            if ax is None:
                return self.I.top('take')
            ax %= len(s[0])
        idx = b['indices']
        if not isinstance(idx, (Num, Arr)):
            idx = self.np_array([idx], {})
        a = self.asarray_v(a)
        return self.getitem(a, self._axes_key(len(self.I.shape(a)), ax, idx))

    def asarray_v(self, a):
        return a if isinstance(a, Arr) else self.np_array([a], {})

    def _along_key(self, b):
        s, i = self.asarr(b['a']), self.asarr(b['indices'])
        ax = b.get('axis', Num(-1, 'int'))
        ax = None if ax is NONE else self.intval(ax)
        if s is None or i is None or ax is None or len(s[0]) != len(i[0]):
            return None
        ax %= len(s[0])
        key = []
        for q in range(len(s[0])):
            if q == ax:
                key.append(b['indices'])
                continue
            v = self.np_arange([Num(extent(s[0][q]), 'int')], {})
            if not isinstance(v, Arr):
                return None
            for _ in range(q):
                v = self.expand(v, 0)
            for _ in range(len(s[0]) - q - 1):
                v = self.expand(v, len(self.I.shape(v)))
            key.append(v)
        return Tup(key)

    def np_take_along_axis(self, args, kw):
        b = self.bindargs(args, kw, ['a', 'indices', 'axis'])
        k = self._along_key(b)
        if k is None:
            return self.I.top('take_along_axis')
        return self.getitem(self.asarray_v(b['a']), k)

    def np_put_along_axis(self, args, kw):
        b = self.bindargs(args, kw, ['a', 'indices', 'values', 'axis'])
        k = self._along_key(b)
        if k is None or not isinstance(b['a'], Arr):
            return self.I.top('put_along_axis')
        self.setitem(b['a'], k, b['values'])
        return NONE

    def np_average(self, args, kw):
        b = self.bindargs(args, kw, ['a', 'axis', 'weights', 'returned', 'keepdims'])
        kws = {k: v for k, v in b.items() if k in ('axis', 'keepdims')}
        w = b.get('weights', NONE)
        if 'returned' in b:
            return self.I.top('average')
        if w is NONE:
            return self.np_mean([b['a']], kws)
        s, q = self.asarr(b['a']), self.asarr(w)
        if s is None or q is None:
            return self.I.top('average')
        if len(q[0]) != len(s[0]):
            ax = self.intval(b['axis']) if 'axis' in b and b['axis'] is not NONE else None
            if ax is None or len(q[0]) != 1:
                return self.I.top('average')
            for _ in range(len(s[0]) - ax % len(s[0]) - 1):
                w = self.expand(w, len(self.I.shape(w)) if isinstance(w, Arr) else 1)
        num = self.np_sum([self.binop('Mult', b['a'], w)], dict(kws))
        one = self.np_ones_like([b['a']], {})
        den = self.np_sum([self.binop('Mult', one, w)], dict(kws))
        return self.binop('Div', num, den)

    def np_column_stack(self, args, kw):
        it = self.iterate(args[0])
        if it is None:
            return self.I.top('column_stack')
        cols = []
        for x in it:
            x = self.asarray_v(x)
            if not isinstance(x, Arr):
                return self.I.top('column_stack')
            cols.append(x if len(self.I.shape(x)) > 1 else self.expand(x, 1))
        return self.np_concatenate([Tup(cols)], {'axis': Num(1, 'int')})

    def np_row_stack(self, args, kw):
        return self.np_vstack(args, kw)

    def np_broadcast_arrays(self, args, kw):
        s = [self.asarr(a) for a in args]
        if any(x is None for x in s):
            return self.I.top('broadcast_arrays')
        sh = self.bshape([x[0] for x in s], 'broadcast_arrays')
        if sh is None:
            return self.I.top('broadcast_arrays')
        to = Tup([Num(extent(q), 'int') for q in sh])
        return Tup([self.np_broadcast_to([a, to], {}) for a in args])

    def np_diff(self, args, kw):
        b = self.bindargs(args, kw, ['a', 'n', 'axis'])
        s = self.asarr(b['a'])
        ax = self.intval(b['axis']) if 'axis' in b else -1
        if s is None or ax is None or not s[0] or ('n' in b and self.intval(b['n']) != 1):
            return self.I.top('diff')
        ax %= len(s[0])
        a = self.asarray_v(b['a'])
        hi = self.getitem(a, self._axes_key(len(s[0]), ax, SliceV(Num(1, 'int'), NONE, NONE)))
        lo = self.getitem(a, self._axes_key(len(s[0]), ax, SliceV(NONE, Num(-1, 'int'), NONE)))
        return self.binop('Sub', hi, lo)

    def np_ix_(self, args, kw):
        out = []
        for q, a in enumerate(args):
            a = self.asarray_v(a)
            if not isinstance(a, Arr) or len(self.I.shape(a)) != 1:
                return self.I.top('ix_')
            for _ in range(q):
                a = self.expand(a, 0)
            for _ in range(len(args) - q - 1):
                a = self.expand(a, len(self.I.shape(a)))
            out.append(a)
        return Tup(out)

    def np_isin(self, args, kw):
        b = self.bindargs(args, kw, ['element', 'test_elements', 'assume_unique', 'invert'])
        s = self.asarr(b['element'])
        t = self.asarr(b['test_elements'])
        if s is None or t is None or s[1] is None or t[1] is None:
            return self.I.top('isin')
        bs = []
        mp = {}
        for vs, q in zip(shape_vars(t[0]), t[0]):
            for v, e in zip(vs, q):
                x = fresh()
                mp[v] = atom(x)
                bs.append((x, e))
        if 'invert' in b:
            return self.I.top('isin')
        r = T.any_(bs, T.ind_eq(T.sub(s[1], T.subst(t[1], mp))))
        return self.mk(s[0], r, 'b')

    def np_allclose(self, args, kw):
        return self.np_all([self.np_isclose(args, kw)], {})

    def np_invert(self, args, kw):
        return self.unop('Invert', args[0])

    def np_concatenate(self, args, kw):
        I = self.I
        b = self.bindargs(args, kw, ['a', 'axis'])
        it = self.iterate(b['a'])
        if it is None or any(isinstance(x, Guarded) for x in it):
            # union of index sets of unknown number
            return I.top('concatenate')
        els = [self.asarr(x) for x in it]
        if any(e is None for e in els):
            return I.top('concatenate')
        if len(els) == 1:
            return self.mk(*els[0])
        axv = b.get('axis')
        ax = self.intval(axv) if axv is not None and axv is not NONE else 0
        nd = len(els[0][0])
        ax %= nd
        # index sets: keep the union for np.unique
        masks = [self.idx_mask(x) for x in it] if nd == 1 else [None]
        shape = els[0][0]
        tot = ZERO
        for e in els:
            if len(e[0]) != nd:
                raise Raised('ValueError', 'concatenate rank')
            for q in range(nd):
                if q != ax and e[0][q] != shape[q]:
                    e1, e2 = extent(e[0][q]), extent(shape[q])
                    if not (self._opaque_dim(e1) or self._opaque_dim(e2)):
                        I.finding('shape', 'concatenate of arrays with axis lengths %s and %s' % (T.show(e1), T.show(e2)))
                    return I.top('concatenate shapes')
            tot = T.add(tot, extent(e[0][ax]))
        out = shape[:ax] + (mkdim(tot),) + shape[ax + 1:]
        vo = shape_vars(out)
        if any(e[1] is None for e in els):
            return self.mk(out, None, els[0][2])
        v = atom(vo[ax][0]) if vo[ax] else ZERO
        t = ZERO
        off = ZERO
        for n, e in enumerate(els):
            vi = shape_vars(e[0])
            mp = {}
            for q in range(nd):
                if q == ax:
                    rem = T.sub(v, off)
                    for x, sz in reversed(list(zip(vi[q][1:], e[0][q][1:]))):
                        mp[x] = T.mod(rem, sz)
                        rem = T.floordiv(rem, sz)
                    for x in vi[q][:1]:
                        mp[x] = rem
                else:
                    for x, y in zip(vi[q], vo[q]):
                        mp[x] = atom(y)
            end = T.add(off, extent(e[0][ax]))
            g = ONE
            if n > 0:
                g = T.mul(g, T.ind_ge(T.sub(v, off)))
            if n < len(els) - 1:
                g = T.mul(g, T.ind_gt(T.sub(end, v)))
            t = T.add(t, T.mul(g, T.subst(e[1], mp)))
            off = end
        r = self.mk(out, t, 'f' if any(e[2] == 'f' for e in els) else els[0][2])
        if isinstance(r, Arr) and all(masks):
            self.whereinfo[('union', r.id)] = masks
        return r

    np_cat = np_concatenate
    np_hstack = np_concatenate

    def np_unique(self, args, kw):
        I = self.I
        v = args[0]
        ms = self.whereinfo.get(('union', v.id)) if isinstance(v, Arr) else None
        if ms is None and isinstance(v, Arr):
            m = self.idx_mask(v)
            ms = [m] if m else None
        if ms and all(m[0] is ms[0][0] for m in ms):
            x = fresh()
            u = ZERO
            for e, y, m in ms:
                u = T.or_(u, T.subst(m, {y: atom(x)}))
            return self.idx_from_mask(ms[0][0], x, u)
        return self.mk((mkdim(T.dim('?u%d' % I.new_id())),), None, 'i', why='unique')

    def idx_from_mask(self, e, x, m):
        if m is ONE:
            sh = (mkdim(e),)
            return self.mk(sh, atom(shape_vars(sh)[0][0]), 'i')
        n = T.sum_([(x, e)], m)
        sh = (mkdim(n),)
        vv = shape_vars(sh)[0]
        return self.I.arr(sh, T.enum(e, x, m, atom(vv[0]) if vv else ZERO), 'i')

    def np_searchsorted(self, args, kw):
        b = self.bindargs(args, kw, ['a', 'v', 'side', 'sorter'])
        I = self.I
        a, v = self.asarr(b['a']), self.asarr(b['v'])
        side = b.get('side')
        if a is None or v is None or a[1] is None or v[1] is None or len(a[0]) != 1 or b.get('sorter', NONE) is not NONE:
            return I.top('searchsorted')
        right = isinstance(side, Str) and side.s == 'right'
        am = self.idx_mask(b['a']) if isinstance(b['a'], Arr) else None
        vm = self.idx_mask(b['v']) if isinstance(b['v'], Arr) else None
        t = None
        if am is not None and not right:
            if am[2] is ONE:
                t = v[1] if vm is not None else None
            elif vm is not None and vm[0] is am[0]:
                x = fresh()
                p, q = T.subst(am[2], {am[1]: atom(x)}), T.subst(vm[2], {vm[1]: atom(x)})
                if T.and_(p, q) is q:
                    t = T.rank(am[0], x, p, v[1])
        if t is None:
            ds = a[0][0]
            vs = shape_vars(a[0])[0]
            bs = [(fresh(), e) for e in ds]
            at = T.subst(a[1], {w: atom(y) for w, (y, _) in zip(vs, bs)}) if vs else a[1]
            d = T.sub(v[1], at)
            g = T.ind_ge(d) if right else T.ind_gt(d)
            t = T.sum_(bs, g) if bs else g
        return self.mk(v[0], t, 'i') if v[0] else Num(t, 'int')

    def np_intersect1d(self, args, kw):
        a, b = self.idx_mask(args[0]) if isinstance(args[0], Arr) else None, self.idx_mask(args[1]) if isinstance(args[1], Arr) else None
        rest = isinstance(kw.get('return_indices'), Num) and kw['return_indices'].p is ONE
        if a and b:
            x = fresh()
            if a[0] is not b[0]:               # entries of b below the extent of a, and conversely
                b = (a[0], b[1], T.and_(b[2], T.ind_gt(T.sub(b[0], atom(b[1])))))
            ma, mb = T.subst(a[2], {a[1]: atom(x)}), T.subst(b[2], {b[1]: atom(x)})
            r = self.idx_from_mask(a[0], x, T.and_(ma, mb))
            if not rest:
                return r
            sh, t = self.I.shape(r), self.I.read(r)
            return Tup([r] + [self.mk(sh, T.rank(a[0], x, m, t), 'i') if t is not None else self.mk(sh, None, 'i', why='intersect') for m in (ma, mb)])
        u = (mkdim(T.dim('?u%d' % self.I.new_id())),)
        r = [self.mk(u, None, 'i', why='intersect') for _ in range(3 if rest else 1)]
        return Tup(r) if rest else r[0]

    def np_where(self, args, kw):
        I = self.I
        if len(args) == 1:
            c = args[0]
            if isinstance(c, Phi):
                return I.top('where')
            a = self.asarr(c)
            if a is None:
                return I.top('where')
            if len(a[0]) == 1:
                return Tup((self.where1(c),))
            wide = [i for i, q in enumerate(a[0]) if q != ()]
            if len(wide) == 1 and a[1] is not None:
                # a column: the indices of the only axis longer than one
                ax = wide[0]
                va, vb = shape_vars(a[0])[ax], shape_vars((a[0][ax],))[0]
                w = self.where1(I.arr((a[0][ax],), T.subst(a[1], {p: atom(q) for p, q in zip(va, vb)}), 'b'))
                z = I.arr(I.shape(w), ZERO, 'i')
                return Tup([w if i == ax else z for i in range(len(a[0]))])
            out = []
            n = None
            if a[1] is not None:
                try:
                    bs = [(fresh(), e, v) for vs, q in zip(shape_vars(a[0]), a[0]) for v, e in zip(vs, q)]
                    n = mkdim(T.sum_([(b, e) for b, e, v in bs], T.subst(T.truth(a[1]), {v: atom(b) for b, e, v in bs})))
                except T.Blowup:
                    n = None
            if n is None:
                n = mkdim(T.dim('?w%d' % I.new_id()))
            for ax in range(len(a[0])):
                r = I.arr((n,), None, 'i', why='where')
                self.whereinfo[r.id] = (c, ax)
                out.append(r)
            return Tup(out)

        def f(c, x, y):
            c = T.truth(c)
            if x is T.INF or y is T.INF:
                return T.add(T.mul(c, x), T.mul(T.not_(c), y))
            return T.add(y, T.mul(c, T.sub(x, y)))
        r = self.lift(f, list(args[:3]), None, 'where')
        a, b = self.asarr(args[1]), self.asarr(args[2])
        if isinstance(r, Arr) and a and b and a[2] != 'f' and b[2] != 'f':
            rr = I.rec(r)
            I.heap[r.id] = BufRec(rr.shape, rr.term, 'i', rr.base, rr.alias)
        return r

    def np_nonzero(self, args, kw):
        return self.np_where([args[0]], {})

    def np_flatnonzero(self, args, kw):
        return self.where1(args[0])

    def np_argwhere(self, args, kw):
        return self.I.top('argwhere')

    def np_isclose(self, args, kw):
        tol = [kw.get(k, args[i] if len(args) > i else None) for i, k in ((2, 'rtol'), (3, 'atol'))]
        if any(t is not None for t in tol):
            def g(a, b, rt, at):
                return T.ind_ge(T.sub(T.add(at, T.mul(rt, T.abs_(b))), T.abs_(T.sub(a, b))))
            dflt = (1e-5, 1e-8)
            return self.lift(g, list(args[:2]) + [Num(T.const(w)) if t is None else t for t, w in zip(tol, dflt)], 'b', 'isclose')

        def f(a, b):
            d = T.sub(a, b)
            if T.is_const(d):
                return ONE if abs(T.cval(d)) < Fr(1, 10 ** 9) else ZERO
            if d.t and T.lead_neg(d):
                d = T.neg(d)
            return atom(T.raw('fn', 'isclose0', d))
        return self.lift(f, list(args[:2]), 'b', 'isclose')

    def np_array_equal(self, args, kw):
        a, b = self.asarr(args[0]), self.asarr(args[1])
        if a is None or b is None or a[0] != b[0]:
            return self.I.top('array_equal')
        return self.np_all([self.compare('Eq', args[0], args[1])], {})

    # reductions
    def _red(self, args, kw, names=('a', 'axis')):
        b = self.bindargs(args, kw, list(names))
        return b.get('a', b.get('x')), b.get('axis'), b.get('keepdims'), b

    def np_sum(self, args, kw):
        a, ax, kd, b = self._red(args, kw, ('a', 'axis', 'dtype', 'out', 'keepdims'))
        if isinstance(a, (Tup, Lst)) or isinstance(a, SymSeq):
            a = self.np_array([a], {})
        s = self.asarr(a) if not isinstance(a, Phi) else None
        dt = None
        if s is not None and s[2] == 'b':
            dt = 'i'
        return self.reduce(a, ax, kd, lambda bs, t: T.sum_(bs, t), dt, 'sum')

    np_nansum = np_sum

    def np_mean(self, args, kw):
        a, ax, kd, b = self._red(args, kw, ('a', 'axis', 'dtype', 'out', 'keepdims'))

        def f(bs, t):
            n = ONE
            for v, e in bs:
                n = T.mul(n, e)
            return T.div(T.sum_(bs, t), n)
        return self.reduce(a, ax, kd, f, 'f', 'mean')

    def np_var(self, args, kw):
        a, ax, kd, b = self._red(args, kw, ('a', 'axis', 'dtype', 'out', 'ddof', 'keepdims'))
        if 'ddof' in b:
            return self.I.top('var ddof')
        m = self.np_mean([a], {'axis': ax if ax is not None else NONE, 'keepdims': Num(1, 'bool')})
        return self.np_mean([self.lift(lambda x, y: T.power(T.sub(x, y), 2), [a, m])], {'axis': ax if ax is not None else NONE, 'keepdims': kd if kd is not None else NONE})

    def np_std(self, args, kw):
        return self.lift(T.sqrt, [self.np_var(args, kw)], 'f')

    def np_prod(self, args, kw):
        a, ax, kd, b = self._red(args, kw, ('a', 'axis', 'dtype', 'out', 'keepdims'))
        if isinstance(a, (Tup, Lst)):
            it = self.iterate(a)
            if it is not None and all(isinstance(x, Num) for x in it):
                r = ONE
                for x in it:
                    r = T.mul(r, x.p)
                return Num(r, 'int' if all(x.ty == 'int' for x in it) else 'float')

        def f(bs, t):
            if len(bs) == 1 and T.is_const(bs[0][1]) and T.cval(bs[0][1]) <= 12:
                r = ONE
                for i in range(int(T.cval(bs[0][1]))):
                    r = T.mul(r, T.subst(t, {bs[0][0]: P(i)}))
                return r
            if not bs:
                return t
            return T.prod_(bs, t)
        return self.reduce(a, ax, kd, f, None, 'prod')

    def np_max(self, args, kw):
        a, ax, kd, b = self._red(args, kw, ('a', 'axis', 'out', 'keepdims'))
        return self.reduce(a, ax, kd, lambda bs, t: T.max_(bs, t), None, 'max')

    np_amax = np_max

    def np_min(self, args, kw):
        a, ax, kd, b = self._red(args, kw, ('a', 'axis', 'out', 'keepdims'))
        return self.reduce(a, ax, kd, lambda bs, t: T.min_(bs, t), None, 'min')

    np_amin = np_min

    def np_any(self, args, kw):
        a, ax, kd, b = self._red(args, kw, ('a', 'axis', 'out', 'keepdims'))
        return self.reduce(a, ax, kd, lambda bs, t: T.any_(bs, T.truth(t)), 'b', 'any')

    def np_all(self, args, kw):
        a, ax, kd, b = self._red(args, kw, ('a', 'axis', 'out', 'keepdims'))
        return self.reduce(a, ax, kd, lambda bs, t: T.all_(bs, T.truth(t)), 'b', 'all')

    def np_count_nonzero(self, args, kw):
        a, ax, kd, b = self._red(args, kw)
        return self.reduce(a, ax, kd, lambda bs, t: T.sum_(bs, T.truth(t)), 'i', 'count')

    def np_argmax(self, args, kw):
        a, ax, kd, b = self._red(args, kw)
        return self.argred(a, ax, 1)

    def np_argmin(self, args, kw):
        a, ax, kd, b = self._red(args, kw)
        return self.argred(a, ax, -1)

    def np_logsumexp(self, args, kw):
        a, ax, kd, b = self._red(args, kw, ('a', 'axis', 'b', 'keepdims'))
        self.I.event('logsumexp', arg=a, axis=ax)
        return self.reduce(a, ax, kd, lambda bs, t: T.log(T.sum_(bs, T.exp(t))), 'f', 'logsumexp')

    def np_softmax(self, args, kw):
        a, ax, kd, b = self._red(args, kw)
        self.I.event('logsumexp', arg=a, axis=ax)
        l = self.reduce(a, ax, Num(1, 'bool'), lambda bs, t: T.log(T.sum_(bs, T.exp(t))), 'f', 'softmax')
        return self.lift(lambda x, y: T.exp(T.sub(x, y)), [a, l])

    def np_cumsum(self, args, kw):
        a = self.asarr(args[0])
        return self.mk(a[0], None, a[2]) if a else self.I.top('cumsum')

    # shape
    def np_reshape(self, args, kw):
        b = self.bindargs(args, kw, ['a', 'newshape'])
        dims = self.parse_shape(b.get('newshape', b.get('shape')))
        if dims is None:
            return self.I.top('reshape')
        return self.reshape(b['a'], dims)

    def np_shape(self, args, kw):
        return self.getattr(args[0], 'shape')

    def np_ndim(self, args, kw):
        return self.getattr(args[0], 'ndim')

    def np_size(self, args, kw):
        return self.getattr(args[0], 'size')

    def np_expand_dims(self, args, kw):
        b = self.bindargs(args, kw, ['a', 'axis'])
        ax = self.intval(b['axis']) if isinstance(b['axis'], Num) else [self.intval(x) for x in self.iterate(b['axis'])]
        return self.expand(b['a'], ax)

    def np_unsqueeze(self, args, kw):
        return self.np_expand_dims(args, kw)

    def np_squeeze(self, args, kw):
        b = self.bindargs(args, kw, ['a', 'axis'])
        ax = b.get('axis')
        if ax is not None and ax is not NONE:
            ax = self.axes_arg(ax, len(self.I.shape(b['a'])) if isinstance(b['a'], Arr) else 0)
        else:
            ax = None
        return self.squeeze(b['a'], ax)

    def np_moveaxis(self, args, kw):
        b = self.bindargs(args, kw, ['a', 'source', 'destination'])
        if isinstance(b['a'], Phi):
            return self.phi_map(b['a'], lambda x: self.np_moveaxis([x, b['source'], b['destination']], {}))
        s = self.asarr(b['a'])
        if s is None:
            return self.I.top('moveaxis')
        nd = len(s[0])
        src = self.axes_arg(b['source'], nd)
        dst = self.axes_arg(b['destination'], nd)
        order = [i for i in range(nd) if i not in src]
        for d, q in sorted(zip(dst, src)):
            order.insert(d, q)
        return self.permute_axes(b['a'], order)

    def np_swapaxes(self, args, kw):
        nd = len(self.asarr(args[0])[0])
        i, j = self.intval(args[1]) % nd, self.intval(args[2]) % nd
        o = list(range(nd))
        o[i], o[j] = o[j], o[i]
        return self.permute_axes(args[0], o)

    def np_transpose(self, args, kw):
        a = args[0]
        nd = len(self.asarr(a)[0])
        ax = args[1] if len(args) > 1 else kw.get('axes')
        o = list(range(nd))[::-1] if ax is None or ax is NONE else self.axes_arg(ax, nd)
        return self.permute_axes(a, o)

    def np_atleast_1d(self, args, kw):
        a = args[0]
        if isinstance(a, Num):
            return self.mk(((),), a.p)
        return a if isinstance(a, Arr) else self.np_array([a], {})

    def np_atleast_2d(self, args, kw):
        a = args[0]
        if isinstance(a, Num):
            return self.mk(((), ()), a.p)
        if not isinstance(a, Arr):
            a = self.np_array([a], {})
            if not isinstance(a, Arr):
                return a
        n = len(self.I.shape(a))
        return a if n >= 2 else self.expand(a, 0)

    def np_atleast_3d(self, args, kw):
        a = args[0]
        n = len(self.I.shape(a))
        return a if n >= 3 else self.I.top('atleast_3d')

    def np_repeat(self, args, kw):
        I = self.I
        b = self.bindargs(args, kw, ['a', 'repeats', 'axis'])
        s = self.asarr(b['a'])
        n = self.poly(b['repeats'])
        if s is None or n is None:
            return I.top('repeat')
        ax = b.get('axis')
        if ax is None or ax is NONE:
            if len(s[0]) > 1:
                return I.top('repeat flat')
            ax = 0
        else:
            ax = self.intval(ax) % len(s[0])
        if s[0] == ():
            return self.mk((mkdim(n),), s[1], s[2])
        d = s[0][ax]
        nd = d + mkdim(n)       # element-major: (orig, repeat)
        out = s[0][:ax] + (nd,) + s[0][ax + 1:]
        vi, vo = shape_vars(s[0]), shape_vars(out)
        mp = {}
        for q in range(len(s[0])):
            for x, y in zip(vi[q], vo[q]):
                mp[x] = atom(y)
        return self.mk(out, None if s[1] is None else T.subst(s[1], mp), s[2])

    def np_tile(self, args, kw):
        I = self.I
        b = self.bindargs(args, kw, ['a', 'reps'])
        s = self.asarr(b['a'])
        reps = self.parse_shape(b['reps'])
        if s is None or reps is None:
            return I.top('tile')
        sh = s[0]
        nd = max(len(sh), len(reps))
        shp = ((),) * (nd - len(sh)) + sh
        reps = [ONE] * (nd - len(reps)) + reps
        out = tuple(mkdim(r) + d for r, d in zip(reps, shp))
        vi, vo = shape_vars(sh), shape_vars(out)
        mp = {}
        for q in range(len(sh)):
            w = vo[nd - len(sh) + q]
            w = w[len(w) - len(vi[q]):] if vi[q] else []
            for x, y in zip(vi[q], w):
                mp[x] = atom(y)
        return self.mk(out, None if s[1] is None else T.subst(s[1], mp), s[2])

    def np_broadcast_to(self, args, kw):
        dims = self.parse_shape(args[1])
        s = self.asarr(args[0])
        if dims is None or s is None:
            return self.I.top('broadcast_to')
        out = self.bshape([s[0], tuple(mkdim(d) for d in dims)], 'broadcast_to')
        return self.mk(out, s[1], s[2]) if out is not None else self.I.top('broadcast_to')

    def np_flip(self, args, kw):
        return self.I.top('flip')

    def np_diag(self, args, kw):
        s = self.asarr(args[0])
        if s is None or len(s[0]) != 1 or s[1] is None:
            return self.I.top('diag')
        out = s[0] + s[0]
        vi, vo = shape_vars(s[0]), shape_vars(out)
        mp = {x: atom(y) for x, y in zip(vi[0], vo[0])}
        g = ONE
        for x, y in zip(vo[0], vo[1]):
            g = T.mul(g, T.ind_eq(T.sub(atom(x), atom(y))))
        return self.mk(out, T.mul(g, T.subst(s[1], mp)))

    def np_outer(self, args, kw):
        a, b = self.asarr(args[0]), self.asarr(args[1])
        if a is None or b is None:
            return self.I.top('outer')
        return self.lift(T.mul, [self.expand(args[0], 1), args[1]])

    def np_dot(self, args, kw):
        a, b = self.asarr(args[0]), self.asarr(args[1])
        if a and b and (a[0] == () or b[0] == ()):
            return self.binop('Mult', args[0], args[1])
        return self.matmul(args[0], args[1])

    def np_matmul(self, args, kw):
        return self.matmul(args[0], args[1])

    def np_inner(self, args, kw):
        return self.I.top('inner')

    def np_vdot(self, args, kw):
        return self.I.top('vdot')

    def np_einsum(self, args, kw):
        if isinstance(args[0], Str):
            return self.einsum(args[0].s, args[1:])
        return self.I.top('einsum')

    def np_power(self, args, kw):
        return self.binop('Pow', args[0], args[1])

    np_float_power = np_power
    np_pow = np_power

    def np_clip(self, args, kw):
        b = self.bindargs(args, kw, ['a', 'a_min', 'a_max'])
        lo = b.get('a_min', b.get('min', NONE))
        hi = b.get('a_max', b.get('max', NONE))
        r = b['a']
        if isinstance(r, Num) and False:
            pass
        if lo is not NONE:
            r = self.lift(T.maximum, [r, lo])
        if hi is not NONE:
            r = self.lift(T.minimum, [r, hi])
        if r is b['a']:
            r = self.np_copy([r], {})
        return self.out(r, kw)

    np_clamp = np_clip

    def np_nan_to_num(self, args, kw):
        I = self.I
        b = self.bindargs(args, kw, ['a', 'copy', 'nan', 'posinf', 'neginf'])
        x = b.get('a', b.get('x'))
        nan = b.get('nan', Num(0))
        vals = [x, nan]
        extra = [b[k] for k in ('posinf', 'neginf') if k in b and b[k] is not NONE]
        if extra and len(extra) == 2:
            vals += extra
        r = self.lift(lambda p, *q: T.nan2num(p, *q), vals, None, 'nan_to_num')
        cp = b.get('copy', Num(1, 'bool'))
        c = I.truth(cp)
        if c is ONE:
            return r
        if isinstance(x, Arr):
            if c is ZERO:
                I.write(x, I.read(r) if isinstance(r, Arr) else None)
                return x
            t0, t1 = I.read(x), I.read(r) if isinstance(r, Arr) else None
            I.write(x, None if c is None or t0 is None or t1 is None else I.gamma(c, t0, t1))
        return r

    def np_apply_along_axis(self, args, kw):
        I = self.I
        b = self.bindargs(args, kw, ['func1d', 'axis', 'arr'])
        s = self.asarr(b['arr'])
        ax = self.intval(b['axis'])
        if s is None or s[1] is None or ax is None:
            return I.top('apply_along_axis')
        shape = s[0]
        ax %= len(shape)
        rest = shape[:ax] + shape[ax + 1:]
        row = (shape[ax],)
        vi = shape_vars(shape)
        ren = {}
        fr = []
        for q in range(len(shape)):
            if q == ax:
                for x, y in zip(vi[q], shape_vars(row)[0]):
                    ren[x] = atom(y)
            else:
                for x in vi[q]:
                    f = fresh()
                    ren[x] = atom(f)
                    fr.append((q, x, f))
        rowa = I.arr(row, T.subst(s[1], ren), s[2])
        I.event('loopstart', tag='rows', n=ONE, dims=rest)
        r = I.call(b['func1d'], [rowa])
        I.event('loopend', tag='rows')
        ra = self.asarr(r)
        if ra is None:
            return I.top('apply_along_axis result')
        if ra[0] != ():
            return I.top('apply_along_axis vector result')
        ov = shape_vars(rest)
        mp = {}
        for q, x, f in fr:
            j = q if q < ax else q - 1
            i = vi[q].index(x)
            mp[f] = atom(ov[j][i])
        return self.mk(rest, None if ra[1] is None else T.subst(ra[1], mp))

    def np_vectorize(self, args, kw):
        return self.I.top('vectorize')

    def np_as_strided(self, args, kw):
        I = self.I
        b = self.bindargs(args, kw, ['x', 'shape', 'strides'])
        x = b['x']
        dims = self.parse_shape(b['shape'])
        st = self.iterate(b['strides']) if 'strides' in b and b['strides'] is not NONE else None
        s = self.asarr(x)
        if dims is None or st is None or s is None or s[1] is None or len(dims) != len(st):
            return I.top('as_strided')
        out = tuple(mkdim(d) for d in dims)
        vo = shape_vars(out)
        vi = shape_vars(s[0])
        mp = {}
        used = set()
        for i, q in enumerate(st):
            if isinstance(q, Num) and q.p is ZERO:
                continue
            if isinstance(q, ExtObj) and q.kind == 'stride':
                ax = q.data['axis']
                if ax in used:
                    return I.top('as_strided')
                used.add(ax)
                if out[i] != s[0][ax]:
                    e1, e2 = extent(out[i]), extent(s[0][ax])
                    if T.sign_of(T.sub(e2, e1)) not in ('+', '>='):
                        I.finding('bounds', 'as_strided view of length %s over an axis of length %s' % (T.show(e1), T.show(e2)))
                        return I.top('as_strided out of bounds')
                for a, c in zip(vi[ax], vo[i]):
                    mp[a] = atom(c)
            else:
                return I.top('as_strided')
        for ax in range(len(s[0])):
            if ax not in used:
                for a in vi[ax]:
                    mp[a] = ZERO
        return self.mk(out, T.subst(s[1], mp), s[2])

    def np_sort(self, args, kw):
        return self.opaque_axis('sort', args, kw)

    def np_argsort(self, args, kw):
        r = self.opaque_axis('argsort', args, kw)
        if isinstance(r, Arr):
            rec = self.I.rec(r)
            self.I.heap[r.id] = BufRec(rec.shape, rec.term, 'i')
        return r

    def opaque_axis(self, op, args, kw):
        b = self.bindargs(args, kw, ['a', 'axis'])
        s = self.asarr(b['a'])
        if s is None or s[1] is None:
            return self.I.top(op)
        ax = self.intval(b['axis']) if 'axis' in b and b['axis'] is not NONE else -1
        ax %= len(s[0])
        vs = shape_vars(s[0])
        bs = []
        mp = {}
        for v, c in zip(vs[ax], s[0][ax]):
            f = fresh()
            bs.append((f, c))
            mp[v] = atom(f)
        t = T.app(op, bs, [T.subst(s[1], mp)], tuple(atom(v) for v in vs[ax]))
        return self.mk(s[0], t, s[2])

    def np_quantile(self, args, kw):
        return self.I.top('quantile')

    np_percentile = np_quantile
    np_median = np_quantile

    def np_fill_diagonal(self, args, kw):
        self.I.write(args[0], None)
        return NONE

    def np_copyto(self, args, kw):
        s = self.asarr(args[1])
        self.I.write(args[0], s[1] if s and 'where' not in kw else None)
        return NONE

    def np_isscalar(self, args, kw):
        return Num(ONE if isinstance(args[0], Num) else ZERO, 'bool')

    def np_finfo(self, args, kw):
        return ExtObj('finfo')

    def np_float(self, args, kw):
        return self.b_float(args, kw)

    def np_set_grad_enabled(self, args, kw):
        return ExtObj('ctx')

    # linear algebra ---------------------------------------------------
    def linalg_norm(self, args, kw):
        I = self.I
        b = self.bindargs(args, kw, ['x', 'ord', 'axis', 'keepdims'])
        x = b.get('x', b.get('a'))
        o = b.get('ord', NONE)
        ax = b.get('axis', None)
        if isinstance(x, Phi):
            return self.phi_map(x, lambda y: self.linalg_norm([y], {k: v for k, v in b.items() if k not in ('x', 'a')}))
        s = self.asarr(x)
        if s is None:
            return I.top('norm')
        axs = self.axes_arg(ax, len(s[0]))
        if axs is False:
            return I.top('norm axis')
        nax = len(axs) if axs is not None else len(s[0])
        l2 = lambda bs, t: T.sqrt(T.sum_(bs, T.power(t, 2)))
        f = None
        if s[0] == ():
            return self.lift(T.abs_, [x], 'f')
        if o is NONE:
            f = l2
        elif isinstance(o, Str) and o.s == 'fro':
            f = l2
        elif isinstance(o, Num):
            if nax == 1:
                if o.p is T.INF:
                    f = lambda bs, t: T.max_(bs, T.abs_(t))
                elif T.is_const(o.p):
                    k = T.cval(o.p)
                    if k == 2:
                        f = l2
                    elif k == 1:
                        f = lambda bs, t: T.sum_(bs, T.abs_(t))
                    elif k == 0:
                        f = lambda bs, t: T.sum_(bs, T.not_(T.ind_eq(t)))
                    elif k > 0:
                        f = lambda bs, t: T.power(T.sum_(bs, T.power(T.abs_(t), k)), 1 / k)
                else:
                    f = lambda bs, t: T.app('norm', bs, [t], (o.p,)) if bs else T.abs_(t)
            else:
                f = lambda bs, t: T.app('matnorm', bs, [t], (o.p,)) if bs else T.abs_(t)
        if f is None:
            return I.top('norm ord')
        return self.reduce(x, ax, b.get('keepdims'), f, 'f', 'norm')

    linalg_vector_norm = linalg_norm

    def mat_op(self, op, a, outs):
        """opaque function of the trailing two axes; outs: list of output kinds ('i','j','k')"""
        s = self.asarr(a)
        if s is None:
            return None
        sh, t, _ = s
        if len(sh) < 2:
            raise Raised('LinAlgError', 'needs 2 dims')
        vs = shape_vars(sh)
        bs = []
        mp = {}
        for ax in (-2, -1):
            for v, c in zip(vs[ax], sh[ax]):
                f = fresh()
                bs.append((f, c))
                mp[v] = atom(f)
        lead = sh[:-2]
        res = []
        for name, dims in outs:
            out = lead + dims
            ov = shape_vars(out)
            m2 = dict(mp)
            for q in range(len(lead)):
                for x, y in zip(vs[q], ov[q]):
                    m2[x] = atom(y)
            o = tuple(atom(v) for q in range(len(lead), len(out)) for v in ov[q])
            if t is None:
                res.append(self.mk(out, None))
            else:
                res.append(self.mk(out, T.app(op + name, bs, [T.subst(t, m2)], o)))
        return res

    def linalg_eigh(self, args, kw):
        sh = self.asarr(args[0])
        if sh is None:
            return self.I.top('eigh')
        d = sh[0][-1]
        if sh[0][-2] != sh[0][-1]:
            self.I.finding('shape', 'eigh of non-square trailing axes %s' % self.shp(sh[0]))
            return self.I.top('eigh')
        r = self.mat_op('eigh', args[0], [('B', (d,)), ('V', (d, d))])
        return Tup(r)

    def linalg_svd(self, args, kw):
        sh = self.asarr(args[0])
        if sh is None:
            return self.I.top('svd')
        fm = kw.get('full_matrices', args[1] if len(args) > 1 else Num(1, 'bool'))
        n, k = sh[0][-2], sh[0][-1]
        if self.I.truth(fm) is ONE:
            return Tup(self.mat_op('svdfull', args[0], [('U', (n, n)), ('S', (k,)), ('V', (k, k))]))
        r = k
        return Tup(self.mat_op('svd', args[0], [('U', (n, r)), ('S', (r,)), ('V', (r, k))]))

    def linalg_inv(self, args, kw):
        sh = self.asarr(args[0])
        r = self.mat_op('inv', args[0], [('', sh[0][-2:])]) if sh else None
        return r[0] if r else self.I.top('inv')

    def linalg_det(self, args, kw):
        sh = self.asarr(args[0])
        r = self.mat_op('det', args[0], [('', ())]) if sh else None
        return r[0] if r else self.I.top('det')

    def linalg_cholesky(self, args, kw):
        sh = self.asarr(args[0])
        r = self.mat_op('chol', args[0], [('', sh[0][-2:])]) if sh else None
        return r[0] if r else self.I.top('cholesky')

    def linalg_solve(self, args, kw):
        I = self.I
        A, B = self.asarr(args[0]), self.asarr(args[1])
        if A is None or B is None:
            return I.top('solve')
        sa, ta, _ = A
        sb, tb, _ = B
        one = len(sb) == 1
        if len(sa) < 2:
            raise Raised('LinAlgError', '')
        n = sa[-1]
        if sa[-2] != n:
            I.finding('shape', 'solve with non-square matrix %s' % self.shp(sa))
            return I.top('solve')
        rowax = -1 if one else -2
        if sb[rowax] != n:
            e1, e2 = extent(n), extent(sb[rowax])
            if not (self._opaque_dim(e1) or self._opaque_dim(e2)):
                I.finding('shape', 'solve: matrix of order %s, right hand side of length %s' % (T.show(e1), T.show(e2)))
            return I.top('solve')
        lead = self.bshape([sa[:-2], sb[:-1] if one else sb[:-2]], 'solve')
        if lead is None:
            return I.top('solve')
        if one:
            lead = sa[:-2]
            out = lead + (n,)
        else:
            out = lead + (n, sb[-1])
        if ta is None or tb is None:
            return self.mk(out, None)
        ov = shape_vars(out)
        rows = [(fresh(), c) for c in n]
        cols = [(fresh(), c) for c in n]
        ma, mb = {}, {}
        va, vb = shape_vars(sa), shape_vars(sb)
        for q in range(len(sa) - 2):
            for x, y in zip(va[q], ov[len(lead) - (len(sa) - 2) + q]):
                ma[x] = atom(y)
        for x, (f, c) in zip(va[-2], rows):
            ma[x] = atom(f)
        for x, (f, c) in zip(va[-1], cols):
            ma[x] = atom(f)
        if one:
            for x, (f, c) in zip(vb[0], rows):
                mb[x] = atom(f)
            o = tuple(atom(v) for v in ov[-1])
        else:
            for q in range(len(sb) - 2):
                for x, y in zip(vb[q], ov[len(lead) - (len(sb) - 2) + q]):
                    mb[x] = atom(y)
            for x, (f, c) in zip(vb[-2], rows):
                mb[x] = atom(f)
            for x, y in zip(vb[-1], ov[-1]):
                mb[x] = atom(y)
            o = tuple(atom(v) for v in ov[-2])
        t = T.app('solve', rows + cols, [T.subst(ta, ma), T.subst(tb, mb)], o)
        return self.mk(out, t)

    def sp_mvn_pdf(self, args, kw):
        b = self.bindargs(args, kw, ['x', 'mean', 'cov'])
        x = b['x']
        s = self.asarr(x)
        m = self.asarr(b['mean']) if 'mean' in b else None
        c = self.asarr(b['cov']) if 'cov' in b else None
        if s is None or s[1] is None or m is None or m[1] is None or c is None or c[1] is None:
            return self.I.top('mvn pdf')
        if len(c[0]) not in (0, 2) or len(m[0]) != 1:
            return self.I.top('mvn pdf')

        def f(bs, t):
            mt = T.subst(m[1], {v: atom(f) for v, (f, e) in zip(shape_vars(m[0])[0], bs)})
            ct = c[1]
            i, j = fresh(), fresh()
            bb = list(bs)
            if len(c[0]) == 2:
                ct = T.subst(ct, {v: atom(k) for v, k in zip([q for w in shape_vars(c[0]) for q in w], (i, j))})
                bb += [(i, bs[0][1]), (j, bs[0][1])] if bs else []
            return T.app('mvnpdf', bb, [T.sub(t, mt), ct], ())
        r = self.reduce(x, Num(-1, 'int'), None, f, 'f', 'mvn pdf')
        if isinstance(r, Arr):
            return self.squeeze(r)
        return r

    # ------------------------------------------------------------ attributes of non-object values
    def ext_attr(self, base, name):
        root = base.split('.')[0]
        if root in ('numpy', 'torch', 'math') and base in ('numpy', 'torch', 'math') and name in CONSTS:
            return CONSTS[name]()
        if base == 'scipy.stats' and name == 'multivariate_normal':
            return Ext('scipy.stats.multivariate_normal')
        return Ext(base + '.' + name)

    def meth(self, f, name='<method>'):
        return Py(lambda I, a, k: f(a, k), name)

    def getattr(self, o, name, default=None):
        I = self.I
        if isinstance(o, Ext):
            if o.name.startswith('builtins.'):
                if name == '__name__':
                    return Str(o.name.split('.')[-1])
                if o.name == 'builtins.dict' and name == 'fromkeys':
                    return self.meth(self.dict_fromkeys)
                if name == '__init__':
                    return Py(lambda I, a, k: NONE)
                return I.top('attribute of builtin')
            return self.ext_attr(o.name, name)
        if isinstance(o, Arr):
            r = self.arr_attr(o, name)
        elif isinstance(o, Num):
            r = self.num_attr(o, name)
        elif isinstance(o, (Tup, Lst, RangeV, SymSeq)):
            r = self.seq_attr(o, name)
        elif isinstance(o, Dct):
            r = self.dict_attr(o, name)
        elif isinstance(o, Str):
            r = self.str_attr(o, name)
        elif isinstance(o, ExtObj):
            r = self.extobj_attr(o, name, default)
        elif isinstance(o, Bound):
            if name == '__self__':
                r = o.selfv
            elif name == '__func__':
                r = o.fun
            elif name == '__name__':
                r = Str(getattr(o.fun, 'name', 'm').split('.')[-1])
            else:
                r = None
        elif isinstance(o, Py):
            r = Str(o.name) if name == '__name__' else None
        elif o is NONE:
            if default is not None:
                return default
            raise Raised('AttributeError', 'None has no attribute ' + name)
        elif isinstance(o, TopV):
            return TopV('attribute ' + name)
        elif isinstance(o, Wrap):
            return I.getattr(o.fun, name, default)
        else:
            r = None
        if r is None:
            if default is not None:
                return default
            if isinstance(o, (Arr, Num, ExtObj)):
                return I.top('attribute %s of %s' % (name, type(o).__name__))
            raise Raised('AttributeError', '%s has no attribute %s' % (type(o).__name__, name))
        return r

    def arr_attr(self, o, name):
        I = self.I
        r = I.rec(o)
        if name == 'shape':
            return Tup([Num(extent(d), 'int') for d in r.shape])
        if name == 'ndim':
            return Num(len(r.shape), 'int')
        if name == 'T':
            return self.permute_axes(o, list(range(len(r.shape)))[::-1])
        if name == 'size':
            n = ONE
            for d in r.shape:
                n = T.mul(n, extent(d))
            return Num(n, 'int')
        if name == 'dtype':
            return ExtObj('dtype', dt=r.dtype)
        if name == 'device':
            return ExtObj('opaque', name='device')
        if name == 'strides':
            return Tup([ExtObj('stride', axis=i) for i in range(len(r.shape))])
        if name in ('real', 'data'):
            return o
        if name == 'flat':
            return I.top('flat')
        if name in ('reshape', 'view'):
            def resh(a, k):
                if len(a) == 1:
                    dims = self.parse_shape(a[0])
                else:
                    dims = [self.poly(x) for x in a]
                if dims is None or any(d is None for d in dims):
                    return I.top('reshape')
                return self.reshape(o, dims)
            return self.meth(resh)
        if name in ('ravel', 'flatten'):
            def flat(a, k):
                x = self.np_copy([o], {}) if name == 'flatten' else o
                return self.reshape(x, [P(-1)])
            return self.meth(flat)
        if name in ('copy', 'clone', 'contiguous'):
            return self.meth(lambda a, k: self.np_copy([o], {}))
        if name == 'astype':
            def ast_(a, k):
                dt = self.dtype_of(a[0] if a else k.get('dtype'), r.dtype)
                t = I.read(o)
                if isinstance(k.get('copy'), Num) and k['copy'].p is ZERO and dt == r.dtype:
                    return o
                if dt == 'i' and r.dtype == 'f' and t is not None and not T.is_int(t):
                    t = T.fn('trunc', t)
                if dt == 'b' and t is not None:
                    t = T.truth(t)
                return I.arr(r.shape, t, dt)
            return self.meth(ast_)
        if name in ('to', 'cpu', 'detach', 'numpy', 'double', 'float', 'requires_grad_', 'cuda', 'type'):
            return self.meth(lambda a, k: o)
        if name in ('long', 'int', 'bool'):
            d = 'b' if name == 'bool' else 'i'
            return self.meth(lambda a, k: I.arr(r.shape, I.read(o), d))
        if name == 'item':
            return self.meth(lambda a, k: Num(I.read(o)) if I.read(o) is not None and all(d == () for d in r.shape) else I.top('item'))
        if name == 'tolist':
            def tl(a, k):
                if len(r.shape) == 1:
                    it = self.iterate(o)
                    if it is not None:
                        return I.mklist(it)
                    j = fresh()
                    return I.mklist((), SymSeq(extent(r.shape[0]), j, self.getitem(o, Num(atom(j), 'int'))))
                return I.top('tolist')
            return self.meth(tl)
        if name == 'fill':
            def fill(a, k):
                p = self.poly(a[0])
                I.write(o, p)
                return NONE
            return self.meth(fill)
        if name == 'uniform_':
            def unif(a, k):
                lo = a[0] if a else Num(0)
                hi = a[1] if len(a) > 1 else Num(1)
                g = k.get('generator')
                z = self.rng_array([extent(d) for d in r.shape], 'uniform01', g if isinstance(g, ExtObj) and g.kind == 'rng' else 'torch-global')
                v = self.binop('Add', lo, self.binop('Mult', self.binop('Sub', hi, lo), z))
                I.write(o, self.asarr(v)[1] if self.asarr(v) else None)
                return o
            return self.meth(unif)
        if name == 'numel':
            return self.meth(lambda a, k: self.arr_attr(o, 'size'))
        if name == 'dim':
            return self.meth(lambda a, k: Num(len(r.shape), 'int'))
        if name == 'sort':
            def srt(a, k):
                v = self.np_sort([o] + list(a), k)
                I.write(o, I.read(v) if isinstance(v, Arr) else None)
                return NONE
            return self.meth(srt)
        if name == 'transpose':
            def tr(a, k):
                nd = len(r.shape)
                if not a:
                    return self.arr_attr(o, 'T')
                ax = self.axes_arg(a[0] if len(a) == 1 else Tup(a), nd)
                return self.permute_axes(o, ax)
            return self.meth(tr)
        if name == 'permute':
            return self.meth(lambda a, k: self.permute_axes(o, self.axes_arg(a[0] if len(a) == 1 else Tup(a), len(r.shape))))
        if name in ('repeat', 'swapaxes', 'dot', 'clip', 'clamp', 'round', 'cumsum', 'nonzero', 'argsort', 'unsqueeze', 'squeeze',
                    'sum', 'mean', 'min', 'max', 'argmin', 'argmax', 'any', 'all', 'prod', 'std', 'var', 'norm', 'matmul', 'abs',
                    'exp', 'log', 'sqrt', 'logsumexp', 'nan_to_num', 'diagonal', 'expand_dims', 'sin', 'cos', 'pow'):
            nm = {'norm': 'numpy.linalg.norm'}.get(name, 'numpy.' + name)
            return self.meth(lambda a, k: self.call(nm, [o] + list(a), k))
        if name in ('__len__',):
            return self.meth(lambda a, k: self.b_len([o], {}))
        if name == '__array_interface__':
            return I.top(name)
        return None

    def num_attr(self, o, name):
        I = self.I
        if name == 'shape':
            return Tup(())
        if name in ('ndim',):
            return Num(0, 'int')
        if name == 'size':
            return Num(1, 'int')
        if name in ('item', 'copy', 'clone', 'squeeze', 'sum', 'mean', 'min', 'max', 'cpu', 'numpy', 'detach', 'to', 'conjugate'):
            return self.meth(lambda a, k: o)
        if name in ('T', 'real'):
            return o
        if name == 'astype':
            return self.meth(lambda a, k: o)
        if name in ('all', 'any'):
            return self.meth(lambda a, k: Num(T.truth(o.p), 'bool'))
        if name == 'dtype':
            return ExtObj('dtype', dt={'float': 'f', 'int': 'i', 'bool': 'b'}[o.ty])
        if name == 'is_integer':
            return self.meth(lambda a, k: Num(ONE, 'bool') if T.is_int(o.p) else I.top('is_integer'))
        if name in ('reshape', 'flatten', 'ravel'):
            def resh(a, k):
                if name != 'reshape':
                    return self.mk(((),), o.p)
                dims = self.parse_shape(a[0]) if len(a) == 1 else [self.poly(x) for x in a]
                return self.reshape(o, dims) if dims is not None else I.top('reshape')
            return self.meth(resh)
        return None

    def seq_attr(self, o, name):
        I = self.I
        if isinstance(o, Lst):
            if name == 'append':
                def app(a, k):
                    r = I.heap[o.id]
                    I.event('mutate', ref=o)
                    v = a[0]
                    if r.sym is not None:
                        I.heap[o.id] = ListRec((), SymSeq(None, None, TopV('append')))
                        I.event('append', ref=o, value=v)
                    else:
                        I.heap[o.id] = ListRec(r.items + (v,))
                        I.event('append', ref=o, value=v)
                    return NONE
                return self.meth(app)
            if name == 'extend':
                return self.meth(lambda a, k: (self.list_extend(o, a[0]), NONE)[1])
            if name == 'insert':
                def ins(a, k):
                    r = I.heap[o.id]
                    I.event('mutate', ref=o)
                    i = self.intval(a[0])
                    if r.sym is None and i is not None:
                        it = list(r.items)
                        it.insert(i, a[1])
                        I.heap[o.id] = ListRec(it)
                    else:
                        I.heap[o.id] = ListRec((), SymSeq(None, None, TopV('insert')))
                    return NONE
                return self.meth(ins)
            if name == 'pop':
                def pop(a, k):
                    r = I.heap[o.id]
                    i = self.intval(a[0]) if a else -1
                    I.event('mutate', ref=o)
                    if r.sym is None and i is not None and r.items:
                        it = list(r.items)
                        v = it.pop(i)
                        I.heap[o.id] = ListRec(it)
                        return v
                    I.heap[o.id] = ListRec((), SymSeq(None, None, TopV('pop')))
                    return I.top('pop')
                return self.meth(pop)
            if name in ('remove', 'clear', 'sort', 'reverse'):
                def oth(a, k):
                    r = I.heap[o.id]
                    I.event('mutate', ref=o)
                    if name == 'clear':
                        I.heap[o.id] = ListRec(())
                    elif name == 'remove' and r.sym is None:
                        out, done = [], False
                        for x in r.items:
                            c = ZERO if done or isinstance(x, Guarded) else self.eq(x, a[0])
                            if c is ONE:
                                done = True
                                continue
                            out.append(x)
                        I.heap[o.id] = ListRec(out)
                    elif name == 'reverse' and r.sym is None:
                        I.heap[o.id] = ListRec(r.items[::-1])
                    else:
                        I.heap[o.id] = ListRec((), SymSeq(None, None, TopV(name)))
                    return NONE
                return self.meth(oth)
            if name == 'copy':
                return self.meth(lambda a, k: self.py_copy(o))
            if name == '__len__':
                return self.meth(lambda a, k: self.b_len([o], {}))
        if name == 'index':
            def index(a, k):
                it = self.iterate(o)
                if it is None:
                    return I.top('index')
                for i, x in enumerate(it):
                    c = self.eq(x, a[0])
                    if c is ONE:
                        return Num(i, 'int')
                    if c is not ZERO:
                        return I.top('index')
                raise Raised('ValueError', 'index')
            return self.meth(index)
        if name == 'count':
            return self.meth(lambda a, k: I.top('count'))
        if name in ('add', 'update') and isinstance(o, Lst):     # sets are modelled as lists
            def sadd(a, k):
                c = self.contains(o, a[0]) if name == 'add' else None
                if c is ONE:
                    return NONE
                r = I.heap[o.id]
                I.event('mutate', ref=o)
                if c is ZERO and r.sym is None:
                    I.heap[o.id] = ListRec(r.items + (a[0],))
                else:
                    I.heap[o.id] = ListRec((), SymSeq(None, None, TopV('set')))
                return NONE
            return self.meth(sadd)
        if isinstance(o, RangeV) and name in ('start', 'stop', 'step'):
            return Num({'start': o.a, 'stop': o.b, 'step': o.s}[name], 'int')
        return None

    def dict_attr(self, o, name):
        I = self.I

        def lookup(kv, dflt):
            try:
                kk = I.key(kv)
            except Unsupported:
                return I.top('dict key')
            v = I.heap[o.id].d.get(kk, UNDEF)
            if v is UNDEF:
                return dflt
            if isinstance(v, Phi) and v.b is UNDEF:
                return I.merge(v.c, v.a, dflt)
            if isinstance(v, Phi) and v.a is UNDEF:
                return I.merge(v.c, dflt, v.b)
            return v
        if name == 'get':
            return self.meth(lambda a, k: lookup(a[0], a[1] if len(a) > 1 else k.get('default', NONE)))
        if name in ('keys', 'values', 'items'):
            return self.meth(lambda a, k: ExtObj('dict' + name, d=o))
        if name == 'update':
            def upd(a, k):
                d = dict(I.heap[o.id].d)
                I.event('mutate', ref=o)
                if a:
                    if isinstance(a[0], Dct):
                        for kk, v in I.heap[a[0].id].d.items():
                            if isinstance(v, Phi) and (v.a is UNDEF or v.b is UNDEF):
                                old = d.get(kk, UNDEF)
                                v = I.merge(v.c, v.a, old) if v.b is UNDEF else I.merge(v.c, old, v.b)
                            d[kk] = v
                    else:
                        I.note('dict.update')
                for kk, v in k.items():
                    d[('s', kk)] = v
                I.heap[o.id] = DictRec(d)
                return NONE
            return self.meth(upd)
        if name == 'pop':
            def pop(a, k):
                I.event('mutate', ref=o)
                v = lookup(a[0], a[1] if len(a) > 1 else UNDEF)
                if v is UNDEF:
                    raise Raised('KeyError', '')
                d = dict(I.heap[o.id].d)
                d.pop(I.key(a[0]), None)
                I.heap[o.id] = DictRec(d)
                return v
            return self.meth(pop)
        if name == 'setdefault':
            def sd(a, k):
                dflt = a[1] if len(a) > 1 else NONE
                v = lookup(a[0], dflt)
                d = dict(I.heap[o.id].d)
                d[I.key(a[0])] = v
                I.event('mutate', ref=o)
                I.heap[o.id] = DictRec(d)
                return v
            return self.meth(sd)
        if name == 'copy':
            return self.meth(lambda a, k: self.py_copy(o))
        if name == 'clear':
            def clear(a, k):
                I.event('mutate', ref=o)
                I.heap[o.id] = DictRec({})
                return NONE
            return self.meth(clear)
        if name == 'fromkeys':
            return self.meth(self.dict_fromkeys)
        if name == '__getitem__':
            return self.meth(lambda a, k: self.getitem(o, a[0]))
        return None

    def dict_fromkeys(self, a, k):
        it = self.iterate(a[0])
        if it is None:
            return self.I.top('fromkeys')
        v = a[1] if len(a) > 1 else NONE
        return self.I.mkdict({self.I.key(x): v for x in it})

    def str_attr(self, o, name):
        I = self.I
        if name in ('lower', 'upper', 'strip', 'title', 'capitalize', 'lstrip', 'rstrip', 'replace', 'removeprefix', 'removesuffix'):
            def f(a, k):
                if all(isinstance(x, Str) for x in a) and not o.s.startswith('<'):
                    return Str(getattr(o.s, name)(*[x.s for x in a]))
                return Str('<str>')
            return self.meth(f)
        if name in ('startswith', 'endswith', 'isdigit', 'isidentifier', 'islower'):
            def g(a, k):
                if all(isinstance(x, Str) for x in a):
                    return Num(int(getattr(o.s, name)(*[x.s for x in a])), 'bool')
                return I.top('str')
            return self.meth(g)
        if name in ('split', 'rsplit', 'partition', 'splitlines'):
            def h(a, k):
                if all(isinstance(x, Str) for x in a):
                    r = [Str(x) for x in getattr(o.s, name)(*[x.s for x in a])]
                    return I.mklist(r) if name != 'partition' else Tup(r)
                return I.top('split')
            return self.meth(h)
        if name == 'join':
            def j(a, k):
                it = self.iterate(a[0])
                if it is not None and all(isinstance(x, Str) for x in it):
                    return Str(o.s.join(x.s for x in it))
                return Str('<str>')
            return self.meth(j)
        if name in ('format', 'format_map', 'ljust', 'rjust', 'zfill', 'center', 'encode'):
            return self.meth(lambda a, k: Str('<str>'))
        return None

    def extobj_attr(self, o, name, default=None):
        I = self.I
        if o.kind == 'super':
            sv, c = o.data['selfv'], o.data['cls']
            if not isinstance(c, Cls):
                return I.top('super')
            base = I.heap[sv.id].cls if isinstance(sv, Obj) else sv if isinstance(sv, Cls) else None
            if base is None:
                return I.top('super')
            mro = base.mro
            i = mro.index(c) if c in mro else -1
            for k in mro[i + 1:]:
                if name in k.attrs:
                    v = k.attrs[name]
                    if isinstance(sv, Obj):
                        return I.bindto(sv, v, base)
                    if isinstance(v, Wrap):
                        return v.fun if v.kind == 'static' else Bound(sv, v.fun)
                    return v
            if name == '__init__':
                return Py(lambda I, a, k: NONE, 'object.__init__')
            if default is not None:
                return default
            raise Raised('AttributeError', 'super has no attribute ' + name)
        if o.kind == 'rng' and o.data.get('src') == 'torch' and name == 'manual_seed':
            def ms(a, k):
                o.data['seed'] = a[0] if a else k.get('seed', NONE)
                return o
            return self.meth(ms)
        if o.kind == 'rng':
            return self.meth(lambda a, k: self.random(name, list(a), k, o))
        if o.kind == 'torchexp':
            return self.meth(lambda a, k: self._rand(a[0] if a else k.get('sample_shape', NONE), 'exponential', 'torch-global'))
        if o.kind == 'mvn' and name == 'pdf':
            return self.meth(lambda a, k: self.sp_mvn_pdf([a[0] if a else k['x']], {'mean': o.data.get('mean'), 'cov': o.data.get('cov', Num(1, 'float'))}))
        if o.kind == 'mvn' and name == 'logpdf':
            def logpdf(a, k):
                r = self.sp_mvn_pdf([a[0] if a else k['x']], {'mean': o.data.get('mean'), 'cov': o.data.get('cov', Num(1, 'float'))})
                return r if isinstance(r, TopV) else self.lift(T.log, [r], 'f', 'mvn logpdf')
            return self.meth(logpdf)
        if o.kind in ('dictkeys', 'dictvalues', 'dictitems'):
            return None
        if o.kind == 'dtype':
            if name == 'name':
                return Str({'f': 'float64', 'i': 'int64', 'b': 'bool'}[o.data['dt']])
            return None
        if o.kind == 'finfo':
            return Num({'eps': Fr(1, 2 ** 52), 'max': 10 ** 308, 'tiny': Fr(1, 10 ** 308)}.get(name, 0)) if name in ('eps', 'max', 'tiny') else None
        if o.kind in ('opaque', 'ctx'):
            return ExtObj('opaque', name=o.data.get('name', '') + '.' + name)
        return None

    def call_extobj(self, o, args, kw):
        if o.kind in ('opaque', 'ctx'):
            self.I.event('extcall', name=o.data.get('name', ''), args=list(args), kw=dict(kw))
            return ExtObj('opaque', name=o.data.get('name', '') + '()')
        return self.I.top('call of ' + o.kind)

    # ------------------------------------------------------------ builtins
    def builtin(self, n):
        if hasattr(self, 'b_' + n) or n in EXCS or n in TYPES:
            return Ext('builtins.' + n)
        if n == 'super':
            return Ext('builtins.super')
        if n == 'NotImplemented':
            return NOTIMPL
        if n == 'Ellipsis':
            return ELL
        if n == '__name__':
            return Str('mod')
        return None

    def b_len(self, a, k):
        I = self.I
        v = a[0]
        if isinstance(v, Phi):
            return self.phi_map(v, lambda x: self.b_len([x], {}))
        if isinstance(v, Arr):
            s = I.shape(v)
            if not s:
                raise Raised('TypeError', 'len of 0-d')
            return Num(extent(s[0]), 'int')
        if isinstance(v, Lst):
            r = I.heap[v.id]
            if r.sym is not None:
                return Num(r.sym.n, 'int') if r.sym.n is not None else I.top('len')
            if any(isinstance(x, Guarded) for x in r.items):
                n = ZERO
                for x in r.items:
                    n = T.add(n, x.c if isinstance(x, Guarded) else ONE)
                return Num(n, 'int')
            return Num(len(r.items), 'int')
        if isinstance(v, Tup):
            return Num(len(v.items), 'int')
        if isinstance(v, Str):
            return Num(len(v.s), 'int') if not v.s.startswith('<') else I.top('len')
        if isinstance(v, Dct):
            return Num(len(I.heap[v.id].d), 'int')
        if isinstance(v, SymSeq) and v.n is not None:
            return Num(v.n, 'int')
        if isinstance(v, RangeV):
            n = self.range_len(v)
            return Num(n, 'int') if n is not None else I.top('len')
        if isinstance(v, ExtObj) and v.kind.startswith('dict'):
            return Num(len(I.heap[v.data['d'].id].d), 'int')
        if isinstance(v, Obj):
            m, _ = I.heap[v.id].cls.find('__len__')
            if m is not None:
                return I.call(m, (v,))
        if isinstance(v, Num) or v is NONE:
            raise Raised('TypeError', 'len')
        return I.top('len')

    def b_range(self, a, k):
        ps = [self.poly(x) for x in a]
        if any(p is None for p in ps):
            return self.I.top('range')
        if len(ps) == 1:
            return RangeV(ZERO, ps[0], ONE)
        if len(ps) == 2:
            return RangeV(ps[0], ps[1], ONE)
        return RangeV(*ps)

    def b_enumerate(self, a, k):
        st = self.poly(a[1]) if len(a) > 1 else self.poly(k['start']) if 'start' in k else ZERO
        it = self.iterate(a[0])
        if it is not None:
            if any(isinstance(x, Guarded) for x in it):
                return self.I.top('enumerate')
            return Tup([Tup((Num(T.add(st, P(i)), 'int'), x)) for i, x in enumerate(it)])
        info = self.sym_iter(a[0])
        if info is None:
            return self.I.top('enumerate')
        n, j, e, _ = info
        return SymSeq(n, j, Tup((Num(T.add(st, atom(j)), 'int'), e)))

    def b_zip(self, a, k):
        its = [self.iterate(x) for x in a]
        if all(i is not None for i in its):
            if any(isinstance(x, Guarded) for i in its for x in i):
                return self.I.top('zip')
            return Tup([Tup(x) for x in zip(*its)])
        infos = []
        for x, it in zip(a, its):
            if it is not None:
                return self.I.top('zip')
            i = self.sym_iter(x)
            if i is None:
                return self.I.top('zip')
            infos.append(i)
        n, j = infos[0][0], infos[0][1]
        es = []
        for m, jj, e, _ in infos:
            if m is not n and T.sign_of(T.sub(m, n)) != '0':
                return self.I.top('zip lengths')
            es.append(self.subst_val(e, {jj: atom(j)}) if jj is not j else e)
        return SymSeq(n, j, Tup(es))

    def tname(self, v):
        if isinstance(v, Num):
            return v.ty
        if isinstance(v, Str):
            return 'str'
        if isinstance(v, Tup):
            return 'tuple'
        if isinstance(v, Lst):
            return 'list'
        if isinstance(v, Dct):
            return 'dict'
        if isinstance(v, RangeV):
            return 'range'
        if isinstance(v, SliceV):
            return 'slice'
        if v is NONE:
            return 'NoneType'
        return None

    def isinst(self, v, t):
        """indicator or None"""
        I = self.I
        if isinstance(v, Phi):
            x, y = self.isinst(v.a, t), self.isinst(v.b, t)
            return I.gamma(v.c, x, y) if x is not None and y is not None else None
        if isinstance(v, TopV):
            return None
        if isinstance(t, (Tup, Lst)):
            r = ZERO
            for q in self.iterate(t):
                e = self.isinst(v, q)
                if e is None:
                    return None
                r = T.or_(r, e)
            return r
        if isinstance(t, Cls):
            if isinstance(v, Obj):
                return ONE if t in I.heap[v.id].cls.mro else ZERO
            return ZERO
        if isinstance(t, Ext):
            n = t.name
            tn = self.tname(v)
            if n == 'builtins.object':
                return ONE
            if n.startswith('builtins.'):
                b = n.split('.')[1]
                if tn == 'bool' and b == 'int':
                    return ONE
                if b == 'type':
                    return ONE if isinstance(v, Cls) else ZERO
                if isinstance(v, Obj):
                    c = I.heap[v.id].cls
                    return ONE if any(isinstance(bb, Ext) and bb.name == n for k in c.mro for bb in k.bases) else ZERO
                return ONE if tn == b else ZERO
            if n in ('numpy.ndarray',):
                return ONE if isinstance(v, Arr) else ZERO
            if n in ('torch.Tensor',):
                return (ONE if getattr(I, 'torchmode', False) else ZERO) if isinstance(v, Arr) else ZERO
            if n.startswith('numbers.') or n in ('numpy.number', 'numpy.integer', 'numpy.floating', 'numpy.generic', 'numpy.float64', 'numpy.int64'):
                if isinstance(v, Num):
                    if n in ('numbers.Number', 'numbers.Real', 'numbers.Complex'):
                        return ONE
                    if n == 'numbers.Integral':
                        return ONE if v.ty in ('int', 'bool') else ZERO
                    return None
                return ZERO
            if n in ('types.FunctionType', 'types.MethodType', 'types.LambdaType'):
                return ONE if isinstance(v, (Fun, Py, Bound)) else ZERO
            if n.startswith(('collections.', 'typing.')):
                b = n.split('.')[-1]
                if b == 'Callable':
                    return self.callable_(v)
                if b in ('Mapping', 'MutableMapping'):
                    return ONE if tn == 'dict' else ZERO
                if b in ('Iterable', 'Sequence'):
                    return ONE if tn in ('tuple', 'list', 'str', 'range') or (b == 'Iterable' and (tn == 'dict' or isinstance(v, Arr))) else ZERO
            if n == 'numpy.random.Generator':
                return ONE if isinstance(v, ExtObj) and v.kind == 'rng' else ZERO
            return None
        return None

    def b_isinstance(self, a, k):
        c = self.isinst(a[0], a[1])
        return Num(c, 'bool') if c is not None else self.I.top('isinstance')

    def b_issubclass(self, a, k):
        if isinstance(a[0], Cls) and isinstance(a[1], Cls):
            return Num(ONE if a[1] in a[0].mro else ZERO, 'bool')
        return self.I.top('issubclass')

    def b_hasattr(self, a, k):
        if isinstance(a[1], Str):
            c = self.I.hasattr(a[0], a[1].s)
            if c is None and isinstance(a[0], Arr):
                c = ONE if self.arr_attr(a[0], a[1].s) is not None else ZERO
            if c is not None:
                return Num(c, 'bool')
        return self.I.top('hasattr')

    def b_getattr(self, a, k):
        if isinstance(a[1], Phi):
            return self.phi_map(a[1], lambda x: self.b_getattr([a[0], x] + a[2:], k))
        if isinstance(a[1], Str) and not a[1].s.startswith('<'):
            return self.I.getattr(a[0], a[1].s, a[2] if len(a) > 2 else None)
        return self.I.top('getattr')

    def b_setattr(self, a, k):
        if isinstance(a[1], Str) and not a[1].s.startswith('<'):
            self.I.setattr(a[0], a[1].s, a[2])
        else:
            self.I.note('setattr of unknown name')
        return NONE

    def b_delattr(self, a, k):
        self.I.note('delattr')
        return NONE

    def callable_(self, v):
        I = self.I
        if isinstance(v, Phi):
            x, y = self.callable_(v.a), self.callable_(v.b)
            return I.gamma(v.c, x, y) if x is not None and y is not None else None
        if isinstance(v, TopV):
            return None
        if isinstance(v, (Fun, Py, Bound, Cls, Ext, Wrap)):
            return ONE
        if isinstance(v, Obj):
            return ONE if I.heap[v.id].cls.find('__call__')[0] is not None else ZERO
        if isinstance(v, ExtObj):
            return None
        return ZERO

    def b_callable(self, a, k):
        c = self.callable_(a[0])
        return Num(c, 'bool') if c is not None else self.I.top('callable')

    def _seq(self, v):
        it = self.iterate(v)
        if it is None:
            if isinstance(v, SymSeq):
                return None, v
            if isinstance(v, Lst) and self.I.heap[v.id].sym is not None:
                return None, self.I.heap[v.id].sym
            s = self.sym_iter(v)
            if s is not None:
                return None, SymSeq(s[0], s[1], s[2])
        return it, None

    def b_tuple(self, a, k):
        if not a:
            return Tup(())
        it, s = self._seq(a[0])
        if it is not None and not any(isinstance(x, Guarded) for x in it):
            return Tup(it)
        if s is not None:
            return self.I.mklist((), s)
        return self.I.top('tuple()')

    def b_list(self, a, k):
        if not a:
            return self.I.mklist(())
        it, s = self._seq(a[0])
        if it is not None:
            return self.I.mklist(it)
        if s is not None:
            return self.I.mklist((), s)
        return self.I.top('list()')

    def b_set(self, a, k):
        I = self.I
        if not a:
            return I.mklist(())
        it, s = self._seq(a[0])
        if it is not None:
            out = []
            for x in it:
                if not any(self.eq(y, x) is ONE for y in out):
                    out.append(x)
            return I.mklist(out)
        return I.top('set()')

    b_frozenset = b_set

    def b_dict(self, a, k):
        I = self.I
        d = {}
        if a:
            if isinstance(a[0], Dct):
                d.update(I.heap[a[0].id].d)
            else:
                it = self.iterate(a[0])
                if it is None:
                    return I.top('dict()')
                for x in it:
                    kv = self.unpack(x, 2)
                    if kv is None:
                        return I.top('dict()')
                    d[I.key(kv[0])] = kv[1]
        for kk, v in k.items():
            d[('s', kk)] = v
        return I.mkdict(d)

    def b_float(self, a, k):
        if not a:
            return Num(0)
        v = a[0]
        if isinstance(v, Str):
            s = v.s.strip().lower()
            if s in ('inf', '+inf', 'infinity'):
                return Num(T.INF)
            if s in ('-inf', '-infinity'):
                return Num(T.neg(T.INF))
            if s == 'nan':
                return Num(T.sym('nan'))
            try:
                return Num(Fr(s))
            except ValueError:
                return self.I.top('float()')
        if isinstance(v, Phi):
            return self.phi_map(v, lambda x: self.b_float([x], {}))
        p = self.poly(v)
        return Num(p) if p is not None else self.I.top('float()')

    def b_int(self, a, k):
        if not a:
            return Num(0, 'int')
        v = a[0]
        if isinstance(v, Phi):
            return self.phi_map(v, lambda x: self.b_int([x], {}))
        if isinstance(v, Str):
            try:
                return Num(int(v.s), 'int')
            except ValueError:
                return self.I.top('int()')
        p = self.poly(v)
        if p is None:
            return self.I.top('int()')
        if T.is_int(p):
            return Num(p, 'int')
        if T.is_const(p):
            return Num(int(T.cval(p)), 'int')
        if T.nonneg(p):
            return Num(T.floor(p), 'int')
        return Num(T.fn('trunc', p), 'int')

    def b_bool(self, a, k):
        c = self.I.truth(a[0]) if a else ZERO
        return Num(c, 'bool') if c is not None else self.I.top('bool()')

    def b_str(self, a, k):
        v = a[0] if a else Str('')
        if isinstance(v, Str):
            return v
        if v is NONE:
            return Str('None')
        if isinstance(v, Num) and v.ty == 'bool':
            return Str(str(bool(T.cval(v.p)))) if T.is_const(v.p) else Str('<str>')
        if isinstance(v, Num) and T.is_const(v.p) and T.cval(v.p).denominator == 1:
            return Str(str(int(T.cval(v.p))))
        return Str('<str>')

    b_repr = b_str

    def b_abs(self, a, k):
        return self.lift(T.abs_, [a[0]])

    def b_round(self, a, k):
        p = self.poly(a[0])
        if p is not None and T.is_int(p):
            return a[0]
        return self.lift(lambda x: T.fn('round', x), [a[0]]) if len(a) == 1 else self.I.top('round')

    def b_pow(self, a, k):
        return self.binop('Pow', a[0], a[1])

    def b_divmod(self, a, k):
        return Tup((self.binop('FloorDiv', a[0], a[1]), self.binop('Mod', a[0], a[1])))

    def _minmax(self, a, k, f, red):
        I = self.I
        if len(a) == 1:
            it, s = self._seq(a[0])
            if it is None:
                if s is not None and s.n is not None and isinstance(s.elem, Num):
                    return Num(red([(s.j, s.n)], s.elem.p), s.elem.ty)
                return I.top('min/max')
            if any(isinstance(x, Guarded) for x in it):
                return I.top('min/max')
            a = it
        if 'key' in k:
            return I.top('min/max key')
        if not a:
            raise Raised('ValueError', 'empty')
        r = a[0]
        for x in a[1:]:
            r = self.lift(f, [r, x])
        return r

    def b_max(self, a, k):
        return self._minmax(a, k, T.maximum, T.max_)

    def b_min(self, a, k):
        return self._minmax(a, k, T.minimum, T.min_)

    def b_sum(self, a, k):
        I = self.I
        it, s = self._seq(a[0])
        start = a[1] if len(a) > 1 else k.get('start', Num(0, 'int'))
        if it is None:
            if s is not None and s.n is not None:
                e = self.asarr(s.elem)
                if e is not None and e[1] is not None:
                    b = fresh()
                    r = self.mk(e[0], T.sum_([(b, s.n)], T.subst(e[1], {s.j: atom(b)})), e[2] if e[2] != 'b' else 'i')
                    return self.binop('Add', start, r)
            return I.top('sum')
        r = start
        for x in it:
            if isinstance(x, Guarded):
                return I.top('sum')
            r = self.binop('Add', r, x)
        return r

    def _anyall(self, a, f, unit, redf):
        I = self.I
        it, s = self._seq(a[0])
        if it is None:
            if s is not None and s.n is not None and isinstance(s.elem, Num):
                return Num(redf([(s.j, s.n)], T.truth(s.elem.p)), 'bool')
            return I.top('any/all')
        r = unit
        unk = False
        for x in it:
            c = I.truth(x.v if isinstance(x, Guarded) else x)
            if c is None:
                unk = True
                continue
            if isinstance(x, Guarded):
                unk = True
                continue
            r = f(r, c)
        absorb = T.not_(unit)
        if unk and r is not absorb:
            return I.top('any/all')
        return Num(r, 'bool')

    def b_any(self, a, k):
        return self._anyall(a, T.or_, ZERO, T.any_)

    def b_all(self, a, k):
        return self._anyall(a, T.and_, ONE, T.all_)

    def b_print(self, a, k):
        self.I.event('print')
        return NONE

    def b_type(self, a, k):
        I = self.I
        if len(a) == 3:
            d = I.heap[a[2].id].d if isinstance(a[2], Dct) else {}
            c = Cls(a[0].s if isinstance(a[0], Str) else 'T', list(self.iterate(a[1]) or ()), None)
            c.compute_mro()
            for kk, v in d.items():
                if kk[0] == 's':
                    c.attrs[kk[1]] = v
            return c
        v = a[0]
        if isinstance(v, Obj):
            return I.heap[v.id].cls
        t = self.tname(v)
        if t:
            return Ext('builtins.' + t)
        if isinstance(v, Arr):
            return Ext('numpy.ndarray')
        return I.top('type()')

    def b_sorted(self, a, k):
        it = self.iterate(a[0])
        if it is not None and all(isinstance(x, Str) for x in it) and not k:
            return self.I.mklist([Str(s) for s in sorted(x.s for x in it)])
        if it is not None and all(isinstance(x, Num) and T.is_const(x.p) for x in it) and not k:
            return self.I.mklist(sorted(it, key=lambda x: T.cval(x.p)))
        return self.I.top('sorted')

    def b_reversed(self, a, k):
        it = self.iterate(a[0])
        return Tup(it[::-1]) if it is not None else self.I.top('reversed')

    def b_map(self, a, k):
        if len(a) == 2:
            it, s = self._seq(a[1])
            if it is not None and not any(isinstance(x, Guarded) for x in it):
                return Tup([self.I.call(a[0], (x,)) for x in it])
            if s is not None and s.n is not None:
                j = fresh()
                return SymSeq(s.n, j, self.I.call(a[0], (self.seq_at(s, atom(j)),)))
        return self.I.top('map')

    def b_filter(self, a, k):
        return self.I.top('filter')

    def b_iter(self, a, k):
        return a[0]

    def b_next(self, a, k):
        return self.I.top('next')

    def b_id(self, a, k):
        return self.I.top('id')

    def b_vars(self, a, k):
        return self.I.top('vars')

    def b_dir(self, a, k):
        return self.I.top('dir')

    def b_object(self, a, k):
        return ExtObj('object')

    def b_slice(self, a, k):
        if len(a) == 1:
            return SliceV(NONE, a[0], NONE)
        return SliceV(a[0], a[1], a[2] if len(a) > 2 else NONE)

    def b_staticmethod(self, a, k):
        return Wrap('static', a[0])

    def b_classmethod(self, a, k):
        return Wrap('class', a[0])

    def b_property(self, a, k):
        return Wrap('property', a[0])

    def b_open(self, a, k):
        return ExtObj('opaque', name='file')

    def b_complex(self, a, k):
        return self.I.top('complex')


EXCS = {'Exception', 'ValueError', 'TypeError', 'RuntimeError', 'KeyError', 'IndexError', 'AttributeError', 'NotImplementedError',
        'UserWarning', 'Warning', 'RuntimeWarning', 'DeprecationWarning', 'ImportError', 'ModuleNotFoundError', 'ArithmeticError',
        'ZeroDivisionError', 'StopIteration', 'AssertionError', 'OverflowError', 'FloatingPointError', 'LookupError', 'OSError', 'NameError',
        'BaseException'}
TYPES = ('int', 'float', 'str', 'bool', 'tuple', 'list', 'dict', 'object', 'set', 'type', 'complex', 'slice', 'range')
PERM_EXT = {}


def range_simplify(term, ranges):
    """decide indicator atoms with 0 <= v < extent for the index variables in ranges"""
    if term is None or not ranges:
        return term

    def bounds(p):
        lo = hi = p
        for v, e in ranges.items():
            if v not in p.fv:
                continue
            c = None
            for m, k in p.t:
                if any(v in a.fv for a, _ in m):
                    if m == ((v, Fr(1)),):
                        c = k
                    else:
                        return None
            top = T.sub(e, ONE)
            z, t = T.subst(lo, {v: ZERO}), T.subst(lo, {v: top})
            lo = z if c > 0 else t
            z, t = T.subst(hi, {v: ZERO}), T.subst(hi, {v: top})
            hi = t if c > 0 else z
        return lo, hi

    def f(a):
        if a.kind in ('gt', 'ge', 'eq') and any(v in a.fv for v in ranges):
            p = a.args[0]
            b = bounds(p)
            if b is None:
                return None
            lo, hi = T.sign_of(b[0]), T.sign_of(b[1])
            if a.kind == 'gt':
                if lo == '+':
                    return ONE
                if hi in ('-', '0', '<='):
                    return ZERO
            elif a.kind == 'ge':
                if lo in ('+', '0', '>='):
                    return ONE
                if hi == '-':
                    return ZERO
            else:
                if lo == '+' or hi == '-':
                    return ZERO
        return None
    if not any(a.kind in ('gt', 'ge', 'eq') and any(v in a.fv for v in ranges) for a in T.walk(term)):
        return term
    return T.replace(term, f)
