"""C21 and helpers: objective promotion and counting."""
from . import terms as T, ri
from .terms import ZERO, ONE, atom, add, sub, mul, div, neg
from .fx import Fx, sym, c, pw, sumv, opaque_field
from .runner import ob, from_verdict
from .interp import Arr, Num, NONE, Py, Obj, Raised, extent
from .spec import Fapp


class DD:
    def __init__(self, *dd):
        self.dd = list(dd)


def c21_promote(fdim, rank, dims=('M', 'N', 'd'), ctor=None):
    fx = Fx()
    F = opaque_field('F', 1, event='eval')
    lead = list(dims[:-1])[-(rank - 1):] if rank > 1 else []
    x = fx.arr('X', lead + [dims[-1]])
    if ctor is None:
        o = fx.call('cbx.utils.objective_handling:_promote_objective', F, fdim)
    else:
        o = fx.new('cbx.utils.objective_handling:' + ctor, F)
    out = []
    cfg = '%s rank %d' % (ctor or fdim, rank)
    name = ctor or '_promote_objective[%s]' % fdim
    D = DD(T.dim(dims[-1]) if isinstance(dims[-1], str) else c(dims[-1]))
    shape = lead if rank > 1 else []
    if fdim != '3D' and rank <= 2:
        shape = [1] + lead if rank == 2 else [1, 1]
    r = fx.app(o, x)
    out.append(fx.same(r, shape, lambda *l: Fapp(D, lambda k: T.arr('X', list(l[len(l) - len(lead):]) + [k])), 'pointwise', name, cfg))
    if fdim == '1D':
        for e in fx.I.events:
            if e.kind == 'eval' and len(e.data['shape']) != 1:
                out.append(ob('callable-signature', name, 'violated', cfg, 'abstract execution', 'a function of one point is called with an array of rank %d' % len(e.data['shape'])))
    if fdim == '2D':
        for e in fx.I.events:
            if e.kind == 'eval' and len(e.data['shape']) != 2:
                out.append(ob('callable-signature', name, 'violated', cfg, 'abstract execution', 'a function of a list of points is called with an array of rank %d' % len(e.data['shape'])))
    if fdim != '3D':
        n = ONE
        for q in lead:
            n = mul(n, T.dim(q))
        ne = fx.attr(o, 'num_eval')
        v = ri.compare(ne.p, n) if isinstance(ne, Num) else ri.Verdict(None, 'unknown')
        out.append(from_verdict(v, 'evaluation-count', name, cfg))
        fx.app(o, x)
        ne = fx.attr(o, 'num_eval')
        v = ri.compare(ne.p, mul(c(2), n)) if isinstance(ne, Num) else ri.Verdict(None, 'unknown')
        out.append(from_verdict(v, 'evaluation-count', name, cfg + ' second call'))
        fx.meth(o, 'reset')
        ne = fx.attr(o, 'num_eval')
        v = ri.compare(ne.p, ZERO) if isinstance(ne, Num) else ri.Verdict(None, 'unknown')
        out.append(from_verdict(v, 'count-reset', name, cfg))
    return out, fx.coverage()


def c21_count(name, rank):
    """benchmark objectives count one evaluation per point"""
    from .objchecks import OBJ, build, MOD
    fx = Fx()
    kw, dim, _ = OBJ[name][0]
    lead = ['K', 'M', 'N'][-(rank - 1):] if rank > 1 else []
    x = fx.arr('X', lead + [dim])
    o = fx.new(MOD + name, **build(fx, kw))
    n = ONE
    for q in lead:
        n = mul(n, T.dim(q))
    out = []
    for i in (1, 2):
        fx.app(o, x)
        ne = fx.attr(o, 'num_eval')
        v = ri.compare(ne.p, mul(c(i), n)) if isinstance(ne, Num) else ri.Verdict(None, 'unknown')
        out.append(from_verdict(v, 'evaluation-count', name, 'rank %d call %d' % (rank, i)))
    return out, fx.coverage()


def c21_reject():
    out = []
    for f, fd, exc in (('nocall', '1D', 'TypeError'), ('F', '4D', 'ValueError'), ('F', '', 'ValueError')):
        fx = Fx()
        try:
            fx.call('cbx.utils.objective_handling:_promote_objective', fx.num('notcallable') if f == 'nocall' else opaque_field('F', 1), fd)
            st, de = 'violated', 'accepted'
        except Raised as e:
            st, de = 'held', str(e.exc)
        out.append(ob('rejects', '_promote_objective', st, '%s %s' % (f, fd), 'abstract execution', de))
    return out, fx.coverage()


def c21_dynamic(fdim, check):
    """the promoted objective is what the dynamic evaluates: energies of an arbitrary ensemble"""
    from .config import Cfg, Dyn, M, N
    from .runner import ROOT
    F = opaque_field('F', 1, event='eval')
    D = Dyn(Cfg('cbx.dynamics.cbo:CBO', kw={'f_dim': fdim, 'f': F, 'check_f_dims': check}, root=ROOT))
    x = D.I.arr(D.xshape, T.arr('Y', D_idx(D)))
    r = D.I.call(D.I.getattr(D.obj, 'f'), [x], {})
    t, sh = D.I.read(r), D.I.shape(r)
    if t is None or len(sh) != 2:
        return [ob('dynamic-objective', 'CBO.f', 'undecided', fdim)], D.coverage()
    from .interp import shape_vars
    vs = shape_vars(sh)
    m, n = atom(vs[0][0]), atom(vs[1][0])
    v = ri.compare(t, Fapp(D, lambda k: T.arr('Y', [m, n, k])), ri.shape_exts(sh))
    return [from_verdict(v, 'dynamic-objective', 'CBO.f', fdim)], D.coverage()


def D_idx(D):
    from .interp import shape_vars
    return [atom(v) for vs in shape_vars(D.xshape) for v in vs]


def c21_tasks(tier):
    out = []
    for fd in ('1D', '2D', '3D'):
        for r in (1, 2, 3) if fd != '3D' else (3,):
            out.append(('%s rank %d' % (fd, r), c21_promote, (fd, r)))
    out.append(('fh', c21_promote, ('fh', 3, ('M', 'N', 'd'), 'cbx_objective_fh')))
    from .objchecks import OBJ
    for name in OBJ:
        for r in (1, 2, 3, 4):
            out.append(('%s rank %d' % (name, r), c21_count, (name, r)))
    out.append(('reject', c21_reject, ()))
    for fd in ('1D', '2D', '3D'):
        for ch in (False,) if tier == 'quick' else (False, True):
            out.append(('dynamic %s %s' % (fd, ch), c21_dynamic, (fd, ch)))
    return out
