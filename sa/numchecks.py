"""C07 stabilised weights, C19 bounded positions after post processing, C31 kernels."""
import math
from . import terms as T, ri
from .terms import ZERO, ONE, atom, add, sub, mul, div, neg, fresh
from .fx import Fx, sym, c, pw, sumv, sums, opaque_field, axis_index
from .runner import ob, from_verdict, ROOT
from .interp import Arr, Num, NONE, Py, Obj, Raised, extent, shape_vars, UNDEF, Str, Tup, mkdim
from .config import Cfg, Dyn, M, N, B, A, R, to_v, fact
from .spec import View, models_for
from . import dynchecks as dc


# ---------------------------------------------------------------- C07
class Far(ri.Model):
    """objective values far from zero, with a moderate spread"""

    def __init__(self, seed, shift, names=(), **kw):
        super().__init__(seed, **kw)
        self.shift, self.enames = shift, set(names)

    def uf(self, name, vals):
        if isinstance(name, tuple) and name and name[0] == 'F':
            return self.shift + 20 * math.sin(super().uf(name, vals))
        return super().uf(name, vals)

    def arr(self, name, idx):
        if name in self.enames:
            return self.shift + 20 * math.sin(7 * ri.h01(self.seed, 'en', idx))
        if name in (('S', 'alpha'), 'ALP', 'al'):
            return 0.6 + 0.6 * ri.h01(self.seed, 'alp', name, idx)
        return super().arr(name, idx)

    def sym(self, n):
        if n == 'alpha':
            return 0.6 + 0.6 * ri.h01(self.seed, 'alpha')
        return super().sym(n)


BOUND = 20.0


def energy_dependent(t, names):
    for a in T.walk(T.expand(t)):
        if a.kind == 'B' and a.args[0] == 'F':
            return True
        if a.kind == 'arr' and a.args[0] in names:
            return True
    return False


def exp_args(events, names, models, con, lab, rule='weights-stabilised'):
    out = []
    n = 0
    for e in events:
        if e.kind != 'exp':
            continue
        t, sh = e.data['term'], e.data['shape']
        site = '%s:%s' % e.site
        fn = e.site[0].split(':')[-1] if isinstance(e.site[0], str) else con
        if t is None:
            out.append(ob(rule, con, 'undecided', lab, '', 'argument of exp at %s not resolved' % site))
            continue
        if not energy_dependent(t, names):
            continue
        n += 1
        exts = ri.shape_exts(sh)
        vs = [q for q in shape_vars(sh)]
        last = vs[-1] if vs and len(sh) > 1 else []
        bad, valid = '', 0
        for mo in models:
            lead = [v for q in (vs[:-1] if len(sh) > 1 else vs) for v in q]
            for env in ri.points(mo, set(lead), exts, 4, mo.seed):
                env = dict(env)
                vals = []
                ls = last
                if not ls:
                    pts = [{}]
                else:
                    ns = [int(round(mo.ev(x, {}))) for x in sh[-1]]
                    import itertools
                    pts = [dict(zip(ls, p)) for p in itertools.product(*[range(k) for k in ns])]
                for p in pts:
                    try:
                        vals.append(mo.ev(t, {**env, **p}))
                    except ri.Skip:
                        pass
                if len(vals) != len(pts):
                    continue
                valid += 1
                if max(vals) > BOUND:
                    bad = 'exp is applied to %.3g for objective values near %g' % (max(vals), mo.shift)
                elif max(vals) < -BOUND:
                    bad = 'all weights underflow: largest argument of exp is %.3g for objective values near %g' % (max(vals), mo.shift)
        out.append(ob(rule, con, 'violated' if bad else 'held' if valid else 'undecided', lab, 'random-interpretation', bad or '%s, %d points' % (fn, valid), site if bad else ''))
    if not n:
        out.append(ob(rule, con, 'undecided', lab, '', 'no exponential of objective values found'))
    return out


def c07_step(d):
    D = dc.make(d)
    dims = [m.dims for m in models_for(D, 4)]
    ms = [Far(i, s, [('S', 'energy')], dims={k: v for k, v in dm.items()}) for i, (s, dm) in enumerate(zip((250., -250., 250., -250.), dims))]
    return exp_args(D.events, {('S', 'energy')}, ms, dc.short(d['cls']), dc.label(d)), D.coverage()


class Collapsed(ri.Model):
    """all particles of a run (and their memories) coincide"""
    strict = True

    def arr(self, name, idx):
        if name in (('S', 'x'), ('S', 'y')) and len(idx) > 2:
            return super().arr(('S', 'x'), (idx[0], 0) + tuple(idx[2:]))
        if name == ('S', 'energy'):
            return super().arr(name, (idx[0], 0))
        v = super().arr(name, idx)
        return abs(v) if name == ('S', 'v') else v


def c07_collapsed(d):
    """the step of a run whose particles coincide has a value"""
    D = dc.make(d)
    con, lab = dc.short(d['cls']) + '.x', dc.label(d)
    t = D.term('x')
    if t is None:
        return [ob('collapsed-finite', con, 'undecided', lab)], D.coverage()
    ms = [Collapsed(i, dims=dict(m.dims), syms=dict(m.syms)) for i, m in enumerate(models_for(D, 3))]
    ex = ri.shape_exts(D.xshape)
    if undefined(t, ms, ex):
        return [ob('collapsed-finite', con, 'violated', lab, 'evaluation', 'positions have no value (0/0) if the particles of a run coincide', D.blame('x'))], D.coverage()
    return [ob('collapsed-finite', con, 'held', lab, 'evaluation')], D.coverage()


def c07_functions():
    out = []
    for qual, mk in (('cbx.dynamics.pdyn:compute_consensus_default', True), ('cbx.dynamics.hypersurfacecbo:compute_consensus_rescale', False)):
        fx = Fx()
        f = fx.I.lookup(qual)
        for extra in ({}, {'check_coeffs': True}) if mk else ({},):
            g = fx.I.call(f, [], {k: fx.v(v) for k, v in extra.items()}) if mk else f
            n0 = len(fx.I.events)
            fx.I.call(g, [fx.arr('E', ['M', 'N']), fx.arr('X', ['M', 'N', 'd']), fx.arr('al', ['M', 1], props=('pos', 'nonneg'))], {})
            ms = [Far(i, s, ['E']) for i, s in enumerate((250., -250.))]
            out += exp_args(fx.I.events[n0:], {'E'}, ms, qual.split(':')[1], str(extra or ''))
    fx = Fx()
    n0 = len(fx.I.events)
    fx.call('cbx.dynamics.polarcbo:compute_polar_consensus', fx.arr('E', ['M', 'N']), fx.arr('X', ['M', 'N', 'd']), fx.arr('K', ['M', 'N', 'N'], props=('pos', 'nonneg')),
            alpha=fx.arr('al', ['M', 1, 1], props=('pos', 'nonneg')), kernel_factor=fx.arr('kf', ['M', 1, 1], props=('pos', 'nonneg')))
    out += exp_args(fx.I.events[n0:], {'E'}, [Far(i, s, ['E']) for i, s in enumerate((250., -250.))], 'compute_polar_consensus', '')
    # effective sample size
    fx = Fx()
    o = fx.new('cbx.scheduler:eff_sample_size_gap', fx.arr('E', ['M', 'N']), fx.num('eta', pos=True))
    n0 = len(fx.I.events)
    fx.app(o, fx.arr('al', ['M'], props=('pos', 'nonneg')))
    out += exp_args(fx.I.events[n0:], {'E'}, [Far(i, s, ['E']) for i, s in enumerate((250., -250.))], 'eff_sample_size_gap', '')
    return out, fx.coverage()


def c06_function(which, ddim=1, check=False, defaults=False):
    """the consensus functions on given energies, points and alphas"""
    fx = Fx()
    ds = ['d'] if ddim == 1 else ['d', 'd2']
    E, X = fx.arr('E', ['M', 'N']), fx.arr('X', ['M', 'N'] + ds)
    al = fx.arr('al', ['M', 1] + ([1] if which == 'polar' else []), props=('pos', 'nonneg'))
    lab = '%s%s%s' % ('' if ddim == 1 else '%dd ' % ddim, 'checked ' if check else '', 'defaults' if defaults else '')
    h0 = dict(fx.I.heap)
    if which == 'polar':
        kw = {} if defaults else dict(alpha=al, kernel_factor=fx.arr('kf', ['M', 1, 1], props=('pos', 'nonneg')))
        r = fx.call('cbx.dynamics.polarcbo:compute_polar_consensus', E, X, fx.arr('K', ['M', 'N', 'N'], props=('pos', 'nonneg')), **kw)
        con = 'compute_polar_consensus'
    else:
        con = {'default': 'compute_consensus_default', 'rescale': 'compute_consensus_rescale'}[which]
        f = fx.I.lookup('cbx.dynamics.%s:%s' % ('pdyn' if which == 'default' else 'hypersurfacecbo', con))
        if which == 'default':
            f = fx.I.call(f, [], {'check_coeffs': fx.v(True)} if check else {})
        r = fx.app(f, E, X, al)
    if not isinstance(r, Tup) or len(r.items) != 2:
        return [ob('gibbs-mean', con, 'undecided', lab, '', repr(r))], fx.coverage()
    b = fresh()
    bb = atom(b)

    def ref(m, n, *k):
        if which == 'polar':
            z = (lambda *i: ONE, lambda *i: ONE) if defaults else (lambda *i: T.arr('al', [m]), lambda *i: T.arr('kf', [m]))
            w = T.exp(T.neg(T.add(T.mul(z[0](), T.arr('E', [m, bb])), T.mul(z[1](), T.arr('K', [m, n, bb])))))
        else:
            w = T.exp(T.neg(T.mul(T.arr('al', [m]), T.arr('E', [m, bb]))))
        return T.div(T.sum_([(b, N)], T.mul(w, T.arr('X', [m, bb] + list(k)))), T.sum_([(b, N)], w))
    ms = fx.models()
    out = [fx.same(r.items[0], ['M', 'N' if which == 'polar' else 1] + ds, ref, 'gibbs-mean', con, lab, models=ms),
           fx.same(r.items[1], ['M', 'N'], lambda m, n: T.arr('E', [m, n]), 'returned-energies', con, lab, models=ms)]
    for nm, a in (('energies', E), ('points', X), ('alpha', al)):
        out.append(ob('inputs-unchanged', con, 'held' if fx.I.heap[a.id] is h0[a.id] else 'violated', lab + nm, 'effects'))
    return out, fx.coverage()


def c06_functions():
    out = [('default %d %s' % (k, ck), c06_function, ('default', k, ck)) for k in (1, 2) for ck in (False, True)]
    out += [('rescale %d' % k, c06_function, ('rescale', k)) for k in (1, 2)]
    return out + [('polar', c06_function, ('polar',)), ('polar defaults', c06_function, ('polar', 1, False, True))]


def c07_tasks(tier):
    ds = dc.configs(tier) + dc.kernel_variants(tier) + dc.multidim_variants(tier) + dc.noise_variants(tier)
    ds = [d for d in ds if not (d.get('kw') or {}).get('kernel') == 'Constant']
    out = [(dc.label(d), c07_step, (d,)) for d in ds]
    out += [(dc.label(d) + ' collapsed', c07_collapsed, (d,)) for d in ds]
    out.append(('functions', c07_functions, ()))
    from . import torchchecks as tc
    out += [('torch', tc.c26_consensus, (1,)), ('torch polar', tc.c26_polar, (1,))]
    return out


# ---------------------------------------------------------------- C19
class NotANumber(ri.Model):
    """every intermediate value that is tested for NaN is NaN"""

    def __init__(self, seed, **kw):
        super().__init__(seed, **kw)
        self.fns = dict(self.fns, nan2num=lambda mo, x, nan=0.0, *r: nan, isnan=lambda mo, x: 1.0)


class Huge(ri.Model):
    def __init__(self, seed, names, scale, **kw):
        super().__init__(seed, **kw)
        self.names, self.scale = set(names), scale

    def arr(self, name, idx):
        v = super().arr(name, idx)
        if name in self.names:
            v = math.copysign(self.scale * (1 + abs(v)), v)
        return v


def bounded(t, shape, th, models_nan, models_huge, con, lab):
    out = []
    exts = ri.shape_exts(shape)
    fv = {v for q in shape_vars(shape) for v in q}

    def run(models, test):
        bad, n = '', 0
        for mo in models:
            for env in ri.points(mo, fv | ri.free_vars(t), exts, 8, mo.seed):
                try:
                    lim = mo.ev(th, {})
                    v = mo.ev(t, env)
                except ri.Skip:
                    continue
                n += 1
                b = test(mo, env, v, lim)
                bad = bad or b
        return bad, n
    seen = {}

    def tnan(mo, env, v, lim):
        if abs(v) > lim * (1 + 1e-9):
            return 'NaN positions become %.3g' % v
        if seen.setdefault(round(lim, 6), v) != v:
            return 'NaN is not replaced'
        return ''
    bad, n = run(models_nan, tnan)
    out.append(ob('no-nan', con, 'undecided' if not n else 'violated' if bad else 'held', lab, 'random-interpretation', bad))
    bad, n = run(models_huge, lambda mo, env, v, lim: '' if abs(v) <= lim * (1 + 1e-9) else 'position %.3g exceeds the bound %.3g' % (v, lim))
    out.append(ob('bounded-positions', con, 'undecided' if not n else 'violated' if bad else 'held', lab, 'random-interpretation', bad))
    return out


def c19_post(copy, thresh):
    """the default post processing: finite, bounded, identity on admissible positions"""
    D = Dyn(dc.mkcfg(dc.mk('CBO', 'none', 'all')))
    I = D.I
    xp = D.mkarr('XP', D.xshape)
    D.set('x', xp)
    kw = {'copy_nan_to_num': Num(int(copy), 'bool')}
    if thresh:
        T.SYM_POS.add('th')
        T.SYM_NONNEG.add('th')
        kw['max_thresh'] = Num(sym('th'))
    th = sym('th') if thresh else c(10 ** 8)
    p = I.call(I.lookup('cbx.dynamics.pdyn:post_process_default'), [], kw)
    h0 = I.heap.get(I.root_buf(xp.id))
    I.call(p, [D.obj], {})
    lab = 'copy=%s %s' % (copy, 'max_thresh given' if thresh else 'default')
    con = 'post_process_default'
    t, sh = D.term('x'), D.shape('x')
    if t is None:
        return [ob('bounded-positions', con, 'undecided', lab)], D.coverage()
    out = [ob('shape', con, 'held' if sh == D.xshape else 'violated', lab, 'shape')]
    out += bounded(t, sh, th, [NotANumber(s, syms={'th': 2.5}) for s in range(3)], [Huge(s, {'XP'}, 1e12) for s in range(3)], con, lab)
    vs = [atom(v) for q in shape_vars(sh) for v in q]
    ms = [ri.Model(s, syms={'th': 1.5}) for s in range(4)]
    out.append(from_verdict(ri.compare(t, T.arr('XP', vs), ri.shape_exts(sh), ms), 'identity-on-admissible', con, lab))
    if copy and I.heap.get(I.root_buf(xp.id)) is not h0:
        out.append(ob('copy-respected', con, 'violated', lab, 'effects', 'the old array is modified'))
    # Huge values keep their sign and end at the bound
    hm = [Huge(s, {'XP'}, 1e12) for s in range(3)]
    out.append(from_verdict(ri.compare(t, mul(th, T.fn('sign', T.arr('XP', vs))), ri.shape_exts(sh), hm), 'clipped-to-bound', con, lab))
    return out, D.coverage()


def c19_step(d):
    d = dict(d)
    d['kw'] = dict(d.get('kw', {}))
    d['kw']['post_process'] = dc.default_post
    D = dc.make(d)
    t, sh = D.term('x'), D.shape('x')
    con = dc.short(d['cls']) + '.x'
    if t is None:
        return [ob('bounded-positions', con, 'undecided', dc.label(d))], D.coverage()
    dims = [m.dims for m in models_for(D, 3)]
    names = {('S', 'x'), ('S', 'v'), ('S', 'y'), ('S', 'm')} | {('rng', i) for i in range(1, D.I.rngcount + 1)}
    out = bounded(t, sh, c(10 ** 8), [NotANumber(s, dims={k: v for k, v in dm.items()}) for s, dm in enumerate(dims)],
                  [Huge(s, names, 1e9, dims=dm) for s, dm in enumerate(dims)], con, dc.label(d))
    return out, D.coverage()


def c19_default_installed(cls):
    """a dynamic without post processing argument installs the default one, and uses a given one"""
    out = []
    calls = []
    for given in (False, True):
        d = dc.mk(cls, 'none', 'all')
        cfg = dc.mkcfg(d)
        cfg.kw = dict(cfg.kw, post_process=(lambda D: UNDEF) if not given else Py(lambda I, a, k: (calls.append(1), NONE)[1], 'user'))
        D = Dyn(cfg)
        xp = D.mkarr('XP', D.xshape)
        D.step()
        if given:
            out.append(ob('post-processing-installed', cls, 'held' if calls else 'violated', 'given', 'effects'))
    return out, D.coverage()


def c19_tasks(tier):
    out = [('post %s %s' % (a, b), c19_post, (a, b)) for a in (False, True) for b in (False, True)]
    ds = [d for d in dc.configs(tier) if d['batch'] in ('none', 'partial')] if tier != 'quick' else [d for d in dc.configs(tier) if d['batch'] == 'none']
    for d in ds + (dc.noise_variants(tier) + dc.correction_variants(tier) if tier != 'quick' else []):
        out.append((dc.label(d), c19_step, (d,)))
    from . import torchchecks as tc
    out += [('torch post %s' % t, tc.c26_post, (t,)) for t in (False, True)]
    for cls in list(dc.ANY) + ['torch:CBO', 'torch:MirrorCBO']:
        out.append(('installed ' + cls, c19_default_installed, (cls,)))
    return out


# ---------------------------------------------------------------- C31
KDOC = {
    'Gaussian': lambda d2, k: d2 / (2 * k * k),
    'Laplace': lambda d2, k: T.sqrt(d2) / k,
    'InverseQuadratic': None,
    'Constant': None,
    'Taz': None,
}


def undefined(t, models, ex):
    """the term has no value at some point of the models although all its parts are known there"""
    bad = 0
    for mo in models:
        for env in ri.points(mo, ri.free_vars(t), ex, 3, 0):
            try:
                mo.ev(t, env)
            except ri.Unknown:
                return False
            except ri.Skip:
                bad += 1
    return bad > 0


def c31_kernel(name, lead):
    """neg_log is the negative logarithm of the kernel, both depend on the pair of points only"""
    fx = Fx()
    K = fx.I.getattr(fx.I.lookup('cbx.dynamics.polarcbo:PolarCBO'), 'kernel_dict')
    kap = fx.num('kappa', pos=True)
    cls = fx.I.heap[K.id].d.get(('s', name))
    con = name + '_kernel'
    o = fx.I.call(cls, [], {'kappa': kap})
    x, y = fx.arr('X', ['M', 1, 'N', 'd']), fx.arr('Y', ['M', 'N2', 1, 'd'])
    rk, rn = fx.app(o, x, y), fx.meth(o, 'neg_log', x, y)
    out = []
    tk, sk = fx.term(rk)
    tn, sn = fx.term(rn)
    lab = name
    if tk is None or tn is None:
        return [ob('kernel-negative-log', con, 'undecided', lab)], fx.coverage()
    if [extent(q) for q in sk] != [extent(q) for q in sn]:
        return [ob('kernel-negative-log', con, 'violated', lab, 'shape', 'shapes of kernel and neg_log differ')], fx.coverage()
    ex = ri.shape_exts(sk)
    ms = [ri.Model(4)] + [ri.Model(s, syms={'kappa': k}) for s, k in enumerate((0.5, 1.0, 1.7, 2.5))]
    if name != 'Constant':
        out.append(from_verdict(ri.compare(tk, T.exp(neg(tn)), ex, ms), 'kernel-negative-log', con, lab))
    # neg_log against the documented kernel
    d = T.dim('d')
    idx = [axis_index(vs, q) for vs, q in zip(shape_vars(sn), sn)]
    if len(idx) == 3:
        m, i, j = idx
        d2 = sumv(d, lambda k: pw(T.arr('X', [m, j, k]) - T.arr('Y', [m, i, k]), 2))
        if KDOC[name]:
            out.append(from_verdict(ri.compare(tn, KDOC[name](d2, sym('kappa')), ex, ms), 'documented-kernel', con, lab))
        # at coinciding points the kernel is one; its value is defined even if all points of a run coincide
        class Same(ri.Model):
            strict = True

            def arr(self, n, ix):
                return super().arr('P' if n in ('X', 'Y') else n, (ix[0], ix[-1]) if n in ('X', 'Y') else ix)
        sm = [Same(s, syms={'kappa': k}) for s, k in enumerate((0.5, 1.0, 1.7))]
        v = ri.compare(tn, ZERO, ex, sm)
        if v.eq is None and undefined(tn, sm, ex):
            out.append(ob('kernel-at-zero', con, 'violated', lab, 'evaluation', 'no value (0/0) if all points of a run coincide'))
        else:
            out.append(from_verdict(v, 'kernel-at-zero', con, lab))
        out.append(from_verdict(ri.compare(T.pos(neg(tn)), ZERO, ex, ms), 'kernel-at-most-one', con, lab))
        # symmetric: both arguments run over the same points

        class Points(ri.Model):
            def arr(self, n, ix):
                return super().arr('P' if n in ('X', 'Y') else n, ix)
        pm = [Points(s, syms={'kappa': k}, dims={'N': 4, 'N2': 4, 'd': 1 + s % 3}) for s, k in enumerate((0.5, 1.0, 1.7, 2.5, 0.3))]
        vi, vj = shape_vars(sn)[1][0], shape_vars(sn)[2][0]
        out.append(from_verdict(ri.compare(tn, T.subst(tn, {vi: atom(vj), vj: atom(vi)}), ex, pm), 'kernel-symmetric', con, lab))
    return out, fx.coverage()


def c31_factor(mode, active):
    """the kernel enters with factor alpha of the run (mode alpha) or one (mode const)"""
    D = dc.make(dc.mk('PolarCBO', 'none', active, kernel_factor_mode=mode))
    r = D.call('kernel_factor')
    con = 'PolarCBO.kernel_factor'
    lab = '%s active=%s' % (mode, active)
    if isinstance(r, Num):
        return [from_verdict(ri.compare(r.p, ONE), 'kernel-factor', con, lab)] if mode == 'const' else [ob('kernel-factor', con, 'violated', lab, '', 'scalar')], D.coverage()
    t, sh = D.I.read(r), D.I.shape(r)
    V = View(D)
    m = atom(shape_vars(sh)[0][0])
    al = D.term('alpha')
    vs = shape_vars(D.shape('alpha'))
    ref = T.subst(al, {vs[0][0]: V.run(m)}) if mode == 'alpha' else ONE
    return [from_verdict(ri.compare(t, ref, ri.shape_exts(sh), models_for(D)), 'kernel-factor', con, lab)], D.coverage()


def c31_tasks(tier):
    out = [(n, c31_kernel, (n, 0)) for n in KDOC]
    for m in ('alpha', 'const'):
        for a in ('all', 'subset'):
            out.append(('factor %s %s' % (m, a), c31_factor, (m, a)))
    return out
