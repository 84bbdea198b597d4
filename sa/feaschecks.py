"""C12 feasibility: updated particles of hypersurface and mirror dynamics satisfy the constraint."""
from . import terms as T, ri
from .terms import ZERO, ONE, atom, add, sub, mul, div, neg, fresh
from .fx import Fx, sym, c, pw, sumv, axis_index
from .runner import ob, from_verdict, ROOT
from .interp import Arr, Num, Str, NONE, extent, shape_vars, Obj, Raised
from .config import Cfg, Dyn, M, N, to_v
from .spec import View, models_for
from . import dynchecks as dc, libchecks as lc

SM = 'cbx.dynamics.hypersurfacecbo:'
dd = T.dim('d')
sqrt = lambda x: T.sqrt(T.P(x))
pa = lambda i: T.arr('pa', [T.P(i)])


def plane_kw(D):
    T.ARR_PROP.pop('pa', None)
    I = D.I
    return I.mkdict({('s', 'name'): Str('plane'), ('s', 'a'): to_v(I, D.mkarr('pa', D.xshape[2:])), ('s', 'b'): Num(sym('pb'))})


# value g(x) with g = 0 on the surface
SURF = {
    'sphere': (lambda x: sumv(dd, lambda k: x(k) * x(k)), ONE),
    'plane': (lambda x: sumv(dd, lambda k: pa(k) * x(k)), sym('pb')),
}


def entry(D, name):
    t, sh = D.term(name), D.shape(name)
    vs = shape_vars(sh)
    return lambda *ks: T.subst(t, {vs[2 + i][0]: T.P(k) for i, k in enumerate(ks)})


def c12_surface(surf, batch, active, noise, exhausted=False):
    kw = {} if surf == 'sphere' else {'sdf': plane_kw}
    d = dc.mk('HyperSurfaceCBO', batch, active, exhausted=exhausted, noise=noise, **kw)
    D = dc.make(d)
    lab = 'sdf=%s %s' % (surf, dc.label(d))
    con = 'HyperSurfaceCBO.x'
    if D.term('x') is None:
        return [ob('on-surface', con, 'undecided', lab)], D.coverage()
    V = View(D)
    g, val = SURF[surf]
    sel = mul(V.act(V.m), V.inb(V.m, V.n))
    v = ri.compare(g(entry(D, 'x')), val, {k: e for k, e in V.exts.items() if k not in {q[0] for q in shape_vars(D.xshape)[2:]}}, models_for(D, 6), npoints=8, guard=sel)
    return [from_verdict(v, 'on-surface', con, lab, D.blame('x'))], D.coverage()


def c12_sdf(surf):
    """projections, normals and tangential projections of the signed distances"""
    fx = Fx()
    x, z = fx.arr('X', ['M', 'N', 'd']), fx.arr('Z', ['M', 'N', 'd'])
    I = fx.I
    if surf == 'sphere':
        o = fx.call(SM + 'get_sdf', None)
        o2 = fx.call(SM + 'get_sdf', dict(name='sphere'))
    else:
        o = o2 = fx.call(SM + 'get_sdf', dict(name='plane', a=fx.arr('pa', ['d']), b=fx.num('pb')))
    name = type(o).__name__
    name = I.heap[o.id].cls.name
    out = [ob('registered-name', 'get_sdf', 'held' if I.heap[o2.id].cls is I.heap[o.id].cls else 'violated', surf, 'abstract execution')]
    L = ['M', 'N']
    X, Z = (lambda *i: T.arr('X', [T.P(k) for k in i])), (lambda *i: T.arr('Z', [T.P(k) for k in i]))
    na = sqrt(sumv(dd, lambda k: pa(k) * pa(k)))
    nx = lambda m, n: sqrt(sumv(dd, lambda k: X(m, n, k) * X(m, n, k)))
    if surf == 'sphere':
        gr = lambda m, n, i: X(m, n, i) / nx(m, n)
        pr = lambda m, n, i: X(m, n, i) / nx(m, n)
        la = lambda m, n, *i: (dd - 1) / nx(m, n)
    else:
        gr = lambda m, n, i: pa(i) / na
        pr = lambda m, n, i: X(m, n, i) - (sumv(dd, lambda k: pa(k) * X(m, n, k)) - sym('pb')) / (na * na) * pa(i)
        la = None
    tan = lambda m, n, i: Z(m, n, i) - gr(m, n, i) * sumv(dd, lambda k: gr(m, n, k) * Z(m, n, k))
    out.append(fx.same(fx.meth(o, 'grad', x), L + ['d'], gr, 'normal-vector', name + '.grad', surf))
    out.append(fx.same(fx.meth(o, 'proj', x), L + ['d'], pr, 'surface-projection', name + '.proj', surf))
    out.append(fx.same(fx.meth(o, 'proj_tangent_space', x, z), L + ['d'], tan, 'tangential-projection', name + '.proj_tangent_space', surf))
    lp = fx.meth(o, 'Laplacian', x)
    if la:
        out.append(fx.same(lp, L + [1], la, 'laplacian-of-distance', name + '.Laplacian', surf))
    else:
        t, sh = fx.term(lp)
        out.append(ob('laplacian-of-distance', name + '.Laplacian', 'undecided' if t is None else 'held' if t is ZERO else 'violated', surf, 'normal form'))
    # matrix form agrees with the tangential projection
    pm = fx.meth(o, 'get_proj_matrix', x)
    out.append(fx.same(pm, L + ['d', 'd'], lambda m, n, i, j: T.ind_eq(sub(i, j)) - gr(m, n, i) * gr(m, n, j), 'tangential-projection', name + '.get_proj_matrix', surf))
    # feasible and idempotent
    p = fx.meth(o, 'proj', x)
    t, idx, sh = fx.reads(p)
    if t is not None:
        vs = shape_vars(sh)
        at = lambda k: T.subst(t, {vs[2][0]: T.P(k)})
        g, val = SURF[surf]
        out.append(from_verdict(ri.compare(g(at), val, {k: e for k, e in ri.shape_exts(sh).items() if k is not vs[2][0]}, fx.models(), npoints=10), 'projection-feasible', name + '.proj', surf))
        out.append(fx.same(fx.meth(o, 'proj', p), L + ['d'], lambda m, n, i: T.subst(t, {vs[0][0]: T.P(m), vs[1][0]: T.P(n), vs[2][0]: T.P(i)}), 'projection-idempotent', name + '.proj', surf))
    return out, fx.coverage()


def map_kw(key):
    m = lc.MAPS[key]

    def f(D):
        if not m.kw:
            return m.cls
        kw = {('s', 'name'): Str(m.cls)}
        for k, v in m.kw.items():
            if isinstance(v, str):
                if v in ('cr', 'lam', 'de', 'rad', 'fac', 'mx', 'al'):
                    T.SYM_POS.add(v)
                    T.SYM_NONNEG.add(v)
                kw[('s', k)] = Num(sym(v))
            else:
                kw[('s', k)] = D.mkarr(v[0], D.xshape[2:] * (len(v) - 1))
        return D.I.mkdict(kw)
    return f


def mirror_range(D, t, vs, key):
    kind, fn, rhs = lc.INVARIANT[key]
    lhs = fn(lambda k: T.subst(t, {vs[2][0]: T.P(k)}))
    return (lhs, rhs) if kind == 'eq' else (T.maximum(sub(lhs, rhs), ZERO), ZERO)


def c12_mirror(key, batch, active, noise='isotropic', correction=None):
    kw = {'mirrormap': map_kw(key), 'noise': noise}
    if correction:
        kw['correction'] = correction
    d = dc.mk('MirrorCBO', batch, active, **kw)
    D = dc.make(d)
    lab = 'mirrormap=%s %s' % (key, dc.label(d))
    con = 'MirrorCBO.x'
    V = View(D)
    x, y = D.term('x'), D.term('y')
    if x is None or y is None:
        return [ob('image-of-mirror-map', con, 'undecided', lab)], D.coverage()
    out = []
    ms = models_for(D, 5)
    if not dc.mirror_invariant(D, V, ms):
        return [ob('image-of-mirror-map', con, 'undecided', lab)], D.coverage()
    r = D.I.call(D.I.getattr(D.get('mirrormap'), 'grad_conj'), [D.I.arr(D.xshape, y)], {})
    rt = D.I.read(r)
    vs = shape_vars(D.xshape)
    if rt is not None:
        out.append(from_verdict(ri.compare(x, rt, V.exts, ms, npoints=8), 'image-of-mirror-map', con, lab, D.blame('x')))
    if key in lc.INVARIANT:
        lhs, rhs = mirror_range(D, x, vs, key)
        out.append(from_verdict(ri.compare(lhs, rhs, {k: e for k, e in V.exts.items() if k is not vs[2][0]}, ms, npoints=8), 'in-domain', con, lab, D.blame('x')))
    return out, D.coverage()


def c12_mirror_init(key):
    """the dual variable of a new dynamic is the gradient of the mirror map at the initial positions"""
    cfg = dc.mkcfg(dc.mk('MirrorCBO', 'none', 'all', mirrormap=map_kw(key)))
    D = Dyn(cfg)
    con = 'MirrorCBO.y'
    y, sh = D.term('y'), D.shape('y')
    g = D.I.call(D.I.getattr(D.get('mirrormap'), 'grad'), [D.I.arr(D.xshape, D.I.read(D.x0))], {})
    gt = D.I.read(g) if isinstance(g, Arr) else None
    if y is None or gt is None:
        return [ob('initial-dual', con, 'undecided', key)], D.coverage()
    out = [from_verdict(ri.compare(y, gt, ri.shape_exts(sh), [ri.Model(s) for s in range(4)]), 'initial-dual', con, key)]
    al = D.I.root_buf(D.get('y').id) == D.I.root_buf(D.get('x').id)
    out.append(ob('dual-not-aliased', con, 'violated' if al else 'held', key, 'points-to', 'y shares storage with x' if al else ''))
    return out, D.coverage()


def c12_tasks(tier):
    out = []
    q = tier == 'quick'
    bl = [('none', 'all', False), ('none', 'subset', False), ('partial', 'subset', False), ('full', 'subset', False)] + ([] if q else [
        ('partial', 'all', False), ('full', 'all', False), ('partial', 'subset', True), ('full', 'subset', True), ('concat', 'subset', False)])
    for s in SURF:
        out.append(('sdf ' + s, c12_sdf, (s,)))
        for b, a, e in bl:
            for nz in ('isotropic', 'anisotropic'):
                out.append(('surface %s %s %s %s %s' % (s, b, a, nz, e), c12_surface, (s, b, a, nz, e)))
    for k in lc.MAPS:
        out.append(('mirror init ' + k, c12_mirror_init, (k,)))
        for b, a, e in ([('none', 'all', False), ('none', 'subset', False), ('partial', 'subset', False)] if q else [x for x in bl if not x[2]]):
            out.append(('mirror %s %s %s' % (k, b, a), c12_mirror, (k, b, a)))
            if not q:
                out.append(('mirror %s %s %s aniso' % (k, b, a), c12_mirror, (k, b, a, 'anisotropic')))
                if b == 'none':
                    out.append(('mirror %s %s %s corr' % (k, b, a), c12_mirror, (k, b, a, 'isotropic', 'heavi_side')))
    return out
