"""Analysis of library functions on symbolic array inputs: result terms against reference terms."""
from . import terms as T, ri
from .terms import ZERO, ONE, atom, fresh, add, sub, mul, div, neg
from .interp import (Interp, Arr, Num, Tup, Lst, Dct, Obj, Phi, Py, Str, NONE, UNDEF, TopV, BufRec, shape_vars, extent, mkdim, Raised, Unsupported,
                     AnalysisBroken)
from .config import reset_terms, to_v, fact, opaque_field, definite
from .runner import ob, from_verdict, ROOT
from .spec import sumv, sums

sym = T.sym
c = T.const


def pw(x, e):
    return T.power(T.P(x), e)


def f1(name):
    return lambda x: T.fn(name, T.P(x))


class Scaled(ri.Model):
    """arrays sampled on a larger or shifted range"""

    def __init__(self, seed=0, scale=1.0, shift=0.0, **kw):
        super().__init__(seed, **kw)
        self.scale, self.shift = scale, shift

    def arr(self, name, idx):
        v = super().arr(name, idx)
        if isinstance(name, str) and name in getattr(self, 'scaled', ()):
            return v * self.scale + self.shift
        return v


class Fx:
    def __init__(self, root=None):
        reset_terms()
        self.I = Interp(root or ROOT, 'cbx')
        self.names = []

    def dims(self, *ds):
        out = []
        for d in ds:
            if isinstance(d, str):
                e = T.dim(d)
                fact(sub(e, ONE), ">=")
                out.append(e)
            else:
                out.append(c(d))
        return out

    def arr(self, name, ds, dtype='f', props=()):
        sh = tuple(mkdim(e) for e in self.dims(*ds))
        if props:
            T.ARR_PROP[name] = set(props)
        self.names.append(name)
        a = self.I.arr(sh, T.arr(name, [atom(v) for vs in shape_vars(sh) for v in vs]), dtype)
        return a

    def refarr(self, name):
        return lambda *i: T.arr(name, [T.P(k) for k in i])

    def num(self, name, pos=False, integer=False):
        if pos:
            T.SYM_POS.add(name)
            T.SYM_NONNEG.add(name)
        if integer:
            T.INT_SYMS.add(name)
        return Num(sym(name), 'int' if integer else 'float')

    def v(self, x):
        return to_v(self.I, x)

    def new(self, qual, *args, **kw):
        return self.I.call(self.I.lookup(qual), [self.v(a) for a in args], {k: self.v(x) for k, x in kw.items()})

    call = new

    def meth(self, o, name, *args, **kw):
        return self.I.call(self.I.getattr(o, name), [self.v(a) for a in args], {k: self.v(x) for k, x in kw.items()})

    def app(self, o, *args, **kw):
        return self.I.call(o, [self.v(a) for a in args], {k: self.v(x) for k, x in kw.items()})

    def attr(self, o, name):
        return self.I.getattr(o, name)

    def models(self, n=6, scales=(1.0, 3.0, 0.3), dims=None, **kw):
        out = []
        for s in range(n):
            m = Scaled(s, scale=scales[s % len(scales)], dims=dict(dims or {}), **kw)
            m.scaled = set(self.names)
            out.append(m)
        return out

    def coverage(self):
        return dict(functions=sorted(self.I.analysed), events=len(self.I.events), undecided=dict(self.I.undecided), shape=definite(self.I))

    def term(self, v):
        if isinstance(v, Arr):
            return self.I.read(v), self.I.shape(v)
        if isinstance(v, Num):
            return v.p, ()
        return None, None

    def same(self, res, ds, ref, rule, construct, config='', site='', models=None, guard=None, npoints=12):
        """obligation: res has shape ds and entry ref(i, j, ...) at every index (where guard(i, j, ...) holds)"""
        t, sh = self.term(res)
        if sh is None or (t is None and sh == ()):
            return ob(rule, construct, 'undecided', config, '', 'result %r' % (res,))
        want = self.dims(*ds)
        got = [extent(q) for q in sh]
        if len(got) != len(want) or any(not T.equal(a, b) for a, b in zip(got, want)):
            return ob(rule, construct, 'violated', config, 'shape', 'result shape (%s), expected (%s)' % (
                ', '.join(T.show(x) for x in got), ', '.join(T.show(x) for x in want)), site)
        if t is None:
            return ob(rule, construct, 'undecided', config, '', 'unknown value')
        idx = [axis_index(vs, q) for vs, q in zip(shape_vars(sh), sh)]
        r = ref(*idx)
        g = guard(*idx) if guard else None
        vd = ri.compare(t, T.P(r), ri.shape_exts(sh), models or self.models(), npoints=npoints, guard=g)
        return from_verdict(vd, rule, construct, config, site)

    def reads(self, v):
        """(term, index polys) of an array value"""
        t, sh = self.term(v)
        return t, [axis_index(vs, q) for vs, q in zip(shape_vars(sh), sh)], sh


def axis_index(vs, q):
    """flat index along an axis with (possibly composite) extents q"""
    if not vs:
        return ZERO
    i = atom(vs[0])
    for v, e in zip(vs[1:], q[1:]):
        i = add(mul(i, e), atom(v))
    return i
