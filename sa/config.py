"""Analysis configurations: abstract environment of a dynamic + inductive step analysis."""
import dataclasses
from . import terms as T
from .terms import P, ZERO, ONE, fresh, atom
from .interp import (Interp, Num, Str, Tup, Lst, Dct, Obj, Arr, Fun, Bound, Cls, Mod, Ext, ExtObj, Py, Phi, TopV,
                     NONE, ELL, UNDEF, ObjRec, BufRec, ListRec, DictRec, Raised, Unsupported, AnalysisBroken,
                     shape_vars, extent, mkdim)
from . import nplib

M, N, B, A, R = (T.dim(x) for x in 'MNBAR')


def reset_terms():
    """fresh fact base (term tables are kept, they are pure)"""
    T.FACTS.clear()
    T.ARR_PROP.clear()
    nplib.PERM_EXT.clear()


def fact(p, s):
    """assert sign of p: normal form up to sign and positive scaling"""
    T.FACTS[p] = s


@dataclasses.dataclass
class Cfg:
    cls: str                                  # 'cbx.dynamics.cbo:CBO'
    kw: dict = dataclasses.field(default_factory=dict)   # constructor kwargs (python values / V)
    batch: str = 'none'                       # none | partial | full   (batched, partial flag) | concat
    exhausted: bool = False
    active: str = 'all'                       # all | subset
    ddim: int = 1                             # number of trailing domain axes
    alpha: str = 'num'
    hooks: dict = dataclasses.field(default_factory=dict)
    root: str = '/repo'
    xdim3: bool = True

    def name(self):
        bits = [self.cls.split(':')[-1], 'batch=' + self.batch + ('/exhausted' if self.exhausted else ''), 'active=' + self.active]
        if self.ddim != 1:
            bits.append('ddim=%d' % self.ddim)
        for k, v in self.kw.items():
            if isinstance(v, (str, int, float, bool)) or v is None:
                bits.append('%s=%s' % (k, v))
        return ' '.join(bits)


def to_v(I, x):
    if x is None:
        return NONE
    if isinstance(x, bool):
        return Num(int(x), 'bool')
    if isinstance(x, int):
        return Num(x, 'int')
    if isinstance(x, float):
        return Num(T.const(x), 'float')
    if isinstance(x, T.Poly):
        return Num(x, 'float')
    if isinstance(x, str):
        return Str(x)
    if isinstance(x, tuple):
        return Tup([to_v(I, y) for y in x])
    if isinstance(x, list):
        return I.mklist([to_v(I, y) for y in x])
    if isinstance(x, dict):
        return I.mkdict({('s', k): to_v(I, y) for k, y in x.items()})
    return x


def opaque_field(name, ndom, out_core=False, event=None):
    """opaque function of points: reduces the trailing ndom axes to a scalar (or keeps them when out_core)"""

    def fn(I, args, kw):
        x = args[0]
        s = I.lib.asarr(x) if not isinstance(x, Phi) else None
        if s is None:
            return I.top('objective argument')
        shape, t, dt = s
        if len(shape) < ndom:
            I.finding('shape', '%s called with an array of rank %d' % (name, len(shape)))
            return I.top('objective rank')
        lead, core = shape[:len(shape) - ndom], shape[len(shape) - ndom:]
        if event:
            I.event(event, name=name, shape=shape, term=t, val=x)
        if t is None:
            return I.arr(lead if not out_core else shape, None, why='opaque of unknown')
        vs = shape_vars(shape)
        b, mp, outs = [], {}, []
        for ax in range(len(lead), len(shape)):
            for v, e in zip(vs[ax], shape[ax]):
                w = fresh()
                b.append((w, e))
                mp[v] = atom(w)
                outs.append(atom(v))
        body = T.subst(t, mp)
        r = T.app(name, b, (body,), tuple(outs) if out_core else ())
        if out_core:
            return I.arr(shape, r)
        # result axes are renumbered: lead axes shift right by ndom
        nv = shape_vars(lead)
        ren = {}
        for ax in range(len(lead)):
            for v, w in zip(vs[ax], nv[ax]):
                if v is not w:
                    ren[v] = atom(w)
        return I.arr(lead, T.subst(r, ren) if ren else r)
    return Py(fn, name)


def definite(I):
    """shape errors on every execution of the analysed program"""
    return [('%s:%s' % f[1], f[2]) for f in I.findings if f[0] == 'shape' and f[3] is T.ONE]


class Dyn:
    """one dynamic in one configuration"""

    def __init__(self, cfg, I=None, post=None):
        self.cfg = cfg
        reset_terms()
        self.I = I or Interp(cfg.root, 'cbx')
        I = self.I
        self.M, self.N, self.B, self.A, self.R = M, N, B, A, R
        self.dd = [T.dim('d')] if cfg.ddim == 1 else [T.dim('d%d' % i) for i in range(cfg.ddim)]
        fact(T.sub(N, ONE), '>=')
        fact(T.sub(M, ONE), '>=')
        for e in self.dd:
            fact(T.sub(e, ONE), '>=')
        if cfg.batch != 'none':
            fact(T.sub(N, B), '+')
            fact(T.sub(B, ONE), '>=')
        fact(T.sub(M, A), '+' if cfg.active != 'all' else '>=')
        self.xshape = (mkdim(M), mkdim(N)) + tuple(mkdim(e) for e in self.dd)
        self.x0 = self.mkarr('X0', self.xshape)
        self.F = opaque_field('F', cfg.ddim, event='eval')
        kw = {'x': self.x0, 'f_dim': Str('3D'), 'check_f_dims': Num(0, 'bool'),
              'verbosity': Num(0, 'int'), 'max_it': Num(T.sym('max_it'), 'int'),
              'track_args': to_v(I, {'names': []}),
              'post_process': post or Py(lambda I, a, k: NONE, 'post_process')}
        T.INT_SYMS.add('max_it')
        self.params = {}
        if cfg.cls.startswith('torch:'):                       # the torch version of a dynamic
            c = I.call(I.lookup('cbx.utils.torch_utils:to_torch_dynamic'), [I.lookup(cfg.cls[6:])], {})
        else:
            c = I.lookup(cfg.cls)
        self.klass = c
        import ast
        names = set()
        for k in c.mro:
            f = k.attrs.get('__init__')
            if isinstance(f, Fun):
                names |= {a.arg for a in f.node.args.args + f.node.args.kwonlyargs}
        for p in ('dt', 'sigma', 'lamda', 'alpha'):
            if p in names:
                s = T.sym(p)
                kw[p] = Num(s, 'float')
                T.SYM_POS.add(p)
                T.SYM_NONNEG.add(p)
        if cfg.batch != 'none':
            ba = {'size': Num(B, 'int'), 'partial': cfg.batch != 'full'}
            if cfg.batch == 'concat':
                ba['var'] = 'concat'
            kw['batch_args'] = to_v(I, ba)
        for k, v in cfg.kw.items():
            kw[k] = to_v(I, v(self) if callable(v) and not isinstance(v, (Py, Fun, Cls)) else v)
        for k in [k for k, v in kw.items() if v is UNDEF]:
            del kw[k]
        self.kw = kw
        fpos = kw.pop('f', self.F)
        self.obj = I.instantiate(c, [fpos], kw)
        if not isinstance(self.obj, Obj):
            raise AnalysisBroken('cannot instantiate %s' % cfg.cls)
        self.after_init = dict(self.attrs())

    # ------------------------------------------------------------ state access
    def mkarr(self, name, shape, dtype='f', props=()):
        if props:
            T.ARR_PROP[name] = set(props)
        return self.I.arr(shape, T.arr(name, [atom(v) for vs in shape_vars(shape) for v in vs]), dtype)

    def attrs(self):
        return self.I.heap[self.obj.id].attrs

    def get(self, name):
        return self.attrs().get(name)

    def has(self, name):
        v = self.get(name)
        return v is not None and v is not UNDEF

    def set(self, name, v):
        r = self.I.heap[self.obj.id]
        a = dict(r.attrs)
        a[name] = v
        self.I.heap[self.obj.id] = ObjRec(r.cls, a)

    def term(self, name):
        v = self.get(name)
        if isinstance(v, Arr):
            return self.I.read(v)
        if isinstance(v, Num):
            return v.p
        return None

    def shape(self, name):
        v = self.get(name)
        return self.I.shape(v) if isinstance(v, Arr) else None

    def call(self, meth, *args, **kw):
        m = self.I.getattr(self.obj, meth)
        return self.I.call(m, args, kw)

    def mark(self):
        return len(self.I.events), len(self.I.findings)

    # ------------------------------------------------------------ induction
    def generalise(self, prefix='S'):
        """run one step, replace everything the step changes by unknowns of the same shape"""
        I = self.I
        h0 = dict(I.heap)
        a0 = dict(self.attrs())
        self.call('step')
        h1 = dict(I.heap)
        a1 = dict(self.attrs())
        self.changed = {}
        new = dict(a0)
        changed_bufs = {i for i in h0 if isinstance(h0[i], BufRec) and h1.get(i) is not h0[i]}
        for k in list(a1):
            v0, v1 = a0.get(k, UNDEF), a1[k]
            if isinstance(v1, Arr):
                same = isinstance(v0, Arr) and v0 == v1 and not any(j in changed_bufs for j in I.may_alias(v1.id))
                if same:
                    continue
                r1 = h1[v1.id]
                I.heap = h1
                t0 = None
                if isinstance(v0, Arr):
                    I.heap = h0
                    t0 = I.read(v0)
                    sh0 = I.shape(v0)
                    I.heap = h1
                    if t0 is not None and t0 is I.read(v1) and sh0 == r1.shape:
                        continue
                shape = r1.shape
                props = set()
                if r1.dtype == 'i':
                    props.add('int')
                if r1.dtype == 'b':
                    props.add('ind')
                nm = (prefix, k)
                if isinstance(v0, Arr):
                    s0 = h0[v0.id].shape
                    if len(s0) == len(shape) and s0 != shape:
                        diff = [i for i in range(len(shape)) if s0[i] != shape[i]]
                        shape = tuple(mkdim(R) if i in diff else shape[i] for i in range(len(shape)))
                    a = T.single_atom(t0) if t0 is not None else None
                    if a is not None and a.kind == 'arr' and 'perm' in T.ARR_PROP.get(a.args[0], ()):
                        props |= {'perm', 'int', 'nonneg'}
                        nplib.PERM_EXT[nm] = nplib.PERM_EXT.get(a.args[0])
                if k == 'num_f_eval':
                    props |= {'int', 'nonneg'}
                self.changed[k] = shape
                new[k] = (nm, shape, r1.dtype, props)
            elif isinstance(v1, Num):
                if isinstance(v0, Num) and v0.p is v1.p:
                    continue
                if isinstance(v0, Num) or v0 is UNDEF or v0 is NONE:
                    nm = '%s.%s' % (prefix, k)
                    if v1.ty == 'int':
                        T.INT_SYMS.add(nm)
                        if k == 'it' or k == 'track_it':
                            T.SYM_NONNEG.add(nm)
                    new[k] = Num(T.sym(nm), v1.ty)
                    self.changed[k] = None
                else:
                    new[k] = v1
            elif v0 is UNDEF or v0 is not v1:
                new[k] = v1
        # state objects other than self (e.g. closures) changed in place: ListRec/DictRec/ObjRec
        self.other_changed = [i for i in h0 if h1.get(i) is not h0[i] and i != self.obj.id and not isinstance(h0[i], BufRec)]
        I.heap = h1
        for k, v in list(new.items()):
            if isinstance(v, tuple) and len(v) == 4 and not isinstance(v, (Num, Tup)):
                nm, shape, dt, props = v
                new[k] = self.mkarr(nm, shape, dt, props)
        al = new.get('alpha')
        if self.cfg.alpha == 'num' and isinstance(al, Arr) and I.shape(al) == (mkdim(M), mkdim(ONE)):
            new['alpha'] = self.mkarr((prefix, 'alpha'), I.shape(al), 'f', {'pos', 'nonneg'})
        r = I.heap[self.obj.id]
        I.heap[self.obj.id] = ObjRec(r.cls, new)
        if self.cfg.batch != 'none':
            fact(T.sub(R, B), '-' if self.cfg.exhausted else '>=')
            fact(T.sub(R, ONE), '>=')
        del I.events[:]
        del I.findings[:]
        return self

    def activate(self):
        """impose the activity pattern on the current state"""
        if not (self.has('active_runs_idx') and self.has('num_active_runs')):
            raise AnalysisBroken('active_runs_idx / num_active_runs attributes not found')
        if self.cfg.active == 'subset':
            T.ARR_PROP['ACT'] = {'ind'}
            b = fresh()
            v = shape_vars((mkdim(A),))[0][0]
            t = T.enum(M, b, T.arr('ACT', [atom(b)]), atom(v))
            self.set('active_runs_idx', self.I.arr((mkdim(A),), t, 'i'))
            self.set('num_active_runs', Num(A, 'int'))
        return self

    def step(self, name='step'):
        self.pre = dict(self.attrs())
        self.preheap = dict(self.I.heap)
        e, f = self.mark()
        self.result = self.call(name)
        self.events = self.I.events[e:]
        self.findings = self.I.findings[f:]
        return self

    def blame(self, name):
        """source site that last changed attribute name (during the last step)"""
        v = self.get(name)
        root = self.I.root_buf(v.id) if isinstance(v, Arr) else None
        site = None
        for e in getattr(self, 'events', self.I.events):
            if e.kind == 'setattr' and e.data['name'] == name and e.data['obj'] == self.obj:
                site = e.site
            elif e.kind in ('write', 'store') and root is not None and e.data.get('root') == root:
                site = e.site
        return '%s:%s' % site if site else ''

    def coverage(self):
        return dict(functions=sorted(self.I.analysed), events=len(self.I.events), undecided=dict(self.I.undecided), shape=definite(self.I))

    def ready(self):
        self.generalise()
        self.activate()
        return self

    def preterm(self, name):
        v = self.pre.get(name)
        if isinstance(v, Num):
            return v.p
        if not isinstance(v, Arr):
            return None
        h = self.I.heap
        self.I.heap = self.preheap
        try:
            return self.I.read(v)
        finally:
            self.I.heap = h
