"""C26 torch backend: the torch versions of the functions and dynamics compute the documented step."""
import itertools
from . import terms as T, ri
from .terms import ZERO, ONE, atom, add, sub, mul, div, neg
from .fx import Fx, sym, c, sumv, opaque_field, axis_index
from .runner import ob, from_verdict
from .interp import Arr, Num, NONE, Py, Obj, Str, Tup, Raised, UNDEF, extent, shape_vars, mkdim, TopV
from .config import Dyn, M, N, B
from . import dynchecks as dc, inputchecks as ic, numchecks as nc, schedchecks as sc, libchecks as lc

TU = 'cbx.utils.torch_utils:'
POS = ('pos', 'nonneg')


def arr(n):
    return lambda *i: T.arr(n, [T.P(k) for k in i])


# ---------------------------------------------------------------- consensus functions
def c26_consensus(dd):
    """compute_consensus_torch: Gibbs mean of the batch, energies returned unchanged"""
    fx = Fx()
    dims = ['d'] if dd == 1 else ['d0', 'd1']
    e, x, al = fx.arr('E', ['A', 'B']), fx.arr('X', ['A', 'B'] + dims), fx.arr('al', ['A', 1], props=POS)
    n0 = len(fx.I.events)
    r = fx.call(TU + 'compute_consensus_torch', e, x, al)
    con, lab = 'compute_consensus_torch', '%d domain axes' % dd
    if not isinstance(r, Tup) or len(r.items) != 2:
        return [ob('torch-consensus', con, 'undecided', lab, '', 'result %r' % (r,))], fx.coverage()
    BB = T.dim('B')

    def ref(a, one, *k):
        w = lambda b: T.exp(neg(mul(arr('al')(a), arr('E')(a, b))))
        return div(sumv(BB, lambda b: mul(w(b), arr('X')(a, b, *k))), sumv(BB, w))
    out = [fx.same(r.items[0], ['A', 1] + dims, ref, 'torch-consensus', con, lab),
           fx.same(r.items[1], ['A', 'B'], lambda a, b: arr('E')(a, b), 'energies-returned', con, lab)]
    out += nc.exp_args(fx.I.events[n0:], {'E'}, [nc.Far(i, s, ['E']) for i, s in enumerate((250., -250.))], con, lab)
    return out, fx.coverage()


def c26_polar(dd):
    fx = Fx()
    dims = ['d', 'e'][:dd]
    e, x = fx.arr('E', ['A', 'B']), fx.arr('X', ['A', 'B'] + dims)
    k = fx.arr('K', ['A', 'n', 'B'], props=('nonneg',))
    al, kf = fx.arr('al', ['A', 1, 1], props=POS), fx.arr('kf', ['A', 1, 1], props=POS)
    n0 = len(fx.I.events)
    r = fx.call(TU + 'compute_polar_consensus_torch', e, x, k, alpha=al, kernel_factor=kf)
    con = 'compute_polar_consensus_torch' + (' (%d axes)' % dd if dd > 1 else '')
    if not isinstance(r, Tup) or len(r.items) != 2:
        return [ob('torch-consensus', con, 'undecided', '', '', 'result %r' % (r,))], fx.coverage()
    BB = T.dim('B')

    def ref(a, n, *i):
        w = lambda b: T.exp(neg(add(mul(arr('al')(a), arr('E')(a, b)), mul(arr('kf')(a), arr('K')(a, n, b)))))
        return div(sumv(BB, lambda b: mul(w(b), arr('X')(a, b, *i))), sumv(BB, w))
    out = [fx.same(r.items[0], ['A', 'n'] + dims, ref, 'torch-consensus', con),
           fx.same(r.items[1], ['A', 'B'], lambda a, b: arr('E')(a, b), 'energies-returned', con)]
    out += nc.exp_args(fx.I.events[n0:], {'E'}, [nc.Far(i, s, ['E']) for i, s in enumerate((250., -250.))], con, '')
    return out, fx.coverage()


def draw_arrays(t):
    """random arrays of a term: name -> variables of the indices"""
    out = {}
    for a in T.walk(T.expand(t)):
        if a.kind == 'arr' and isinstance(a.args[0], tuple) and a.args[0][0] == 'rng':
            fv = set()
            for q in a.args[1]:
                fv |= q.fv
            out.setdefault(a.args[0], set()).update(fv)
    return out


def c26_norm():
    fx = Fx()
    x = fx.arr('X', ['M', 'N', 'd'])
    out = []
    dd = T.dim('d')
    for kd in (False, True):
        r = fx.call(TU + 'norm_torch', x, axis=-1, keepdims=kd) if kd else fx.call(TU + 'norm_torch', x, axis=-1)
        out.append(fx.same(r, ['M', 'N'] + [1] * kd, lambda m, n, *o: T.sqrt(sumv(dd, lambda k: mul(arr('X')(m, n, k), arr('X')(m, n, k)))),
                           'torch-norm', 'norm_torch', 'keepdims=%s' % kd))
    x4 = fx.arr('Z', ['M', 'N', 'd', 'e'])
    r = fx.call(TU + 'norm_torch', x4, axis=fx.v((2, 3)))
    ee = T.dim('e')
    out.append(fx.same(r, ['M', 'N'], lambda m, n: T.sqrt(sumv(dd, lambda k: sumv(ee, lambda l: mul(arr('Z')(m, n, k, l), arr('Z')(m, n, k, l))))),
                       'torch-norm', 'norm_torch', 'two domain axes'))
    return out, fx.coverage()


class Draws(ri.Model):
    """every random array has a given value"""

    def __init__(self, vals):
        super().__init__(1)
        self.vals = vals

    def arr(self, name, idx):
        return self.vals[name] if name in self.vals else super().arr(name, idx)


def symmetric_exponential(I, t, sh, evs, con):
    """|draw| is the exponential draw of the entry, both signs are equally likely"""
    values = {}
    for e in evs:
        k, q = e.data.get('kind_'), e.data.get('params') or {}
        if k == 'exponential':
            values[e.data['name']] = None
        elif k == 'uniform' or k == 'random':
            values[e.data['name']] = [0.2, 0.8]
        elif k == 'choice':
            a = q.get('a')
            items = I.heap[a.id].items if hasattr(a, 'id') and hasattr(I.heap.get(a.id), 'items') else getattr(a, 'items', None)
            if items is None or 'p' in q or not all(isinstance(z, Num) and T.is_const(z.p) for z in items):
                return ob('sampler-law', con, 'undecided', '', '', 'choice of unknown values')
            values[e.data['name']] = [float(T.cval(z.p)) for z in items]
        elif k in ('randint', 'integers'):
            lo, hi = q.get('low', Num(ZERO)), q.get('high')
            if hi is None or hi is NONE:
                lo, hi = Num(ZERO), lo
            if not (isinstance(lo, Num) and isinstance(hi, Num) and T.is_const(lo.p) and T.is_const(hi.p)):
                return ob('sampler-law', con, 'undecided', '', '', 'unknown integer range')
            values[e.data['name']] = [float(z) for z in range(int(T.cval(lo.p)), int(T.cval(hi.p)))]
        else:
            return ob('sampler-law', con, 'undecided', '', '', 'draws of kind %s' % k)
    used = draw_arrays(t)
    ex = [n for n in used if values.get(n, 0) is None]
    if len(ex) != 1 or any(n not in values for n in used):
        return ob('sampler-law', con, 'violated' if not ex else 'undecided', '', 'effects', '%d exponential draws' % len(ex))
    rest = [n for n in used if values[n]]
    env = {v: 1 for z in shape_vars(sh) for v in z}
    for x in (0.3, 1.9):
        got = []
        for combo in itertools.product(*[values[n] for n in rest]):
            try:
                got.append(Draws({**dict(zip(rest, combo)), ex[0]: x}).ev(t, env))
            except ri.Skip:
                return ob('sampler-law', con, 'undecided', '', '', 'unknown value')
        plus, minus = sum(abs(g - x) < 1e-9 for g in got), sum(abs(g + x) < 1e-9 for g in got)
        if plus != minus or plus + minus != len(got):
            return ob('sampler-law', con, 'violated', '', 'enumeration of the discrete draws', 'exponential draw %g gives %s' % (x, sorted(got)))
    return ob('sampler-law', con, 'held', '', 'enumeration of the discrete draws')


def sampler_obs(fx, s, q, kinds, law=None):
    out = []
    size = fx.v(tuple(Num(e, 'int') for e in fx.dims('M', 'N', 'd')))
    n0 = len(fx.I.events)
    r1 = fx.app(s, size=size)
    n1 = len(fx.I.events)
    r2 = fx.app(s, size=size)
    t, sh = fx.term(r1)
    if t is None:
        return [ob('torch-sampler', q, 'undecided', '', '', 'unknown value')]
    ok = [extent(z) for z in sh] == fx.dims('M', 'N', 'd')
    got = {e.data.get('kind_') for e in fx.I.events[n0:] if e.kind == 'rng'}
    vs = {v for z in shape_vars(sh) for v in z}
    out.append(ob('sampler', q, 'held' if ok and (kinds is None or got == kinds) else 'violated', 'shape and distribution', 'effects',
                  'draws %s of shape %s' % (sorted(map(str, got)), [T.show(extent(z)) for z in sh])))
    idx = draw_arrays(t)
    bad = [a for a in idx if set(idx[a]) != vs]
    out.append(ob('independent-draws', q, 'violated' if bad else 'held', '', 'index injectivity', 'a draw is shared by several entries' if bad else ''))
    same = {a for a in draw_arrays(fx.term(r2)[0])} & set(idx)
    out.append(ob('fresh-draws', q, 'violated' if same else 'held', '', 'effects', 'the same draws are returned again' if same else ''))
    if law is not None:
        out.append(law(fx.I, t, sh, [e for e in fx.I.events[n0:n1] if e.kind == 'rng'], q))
    else:
        a = T.single_atom(t)
        out.append(ob('sampler', q, 'held' if a is not None and a.kind == 'arr' else 'violated', 'values', 'normal form', T.show(t)[:200]))
    return out


def c26_samplers():
    """shape and kind of the draws of the torch samplers: one independent draw per entry"""
    out = []
    for q, kinds, law in (('standard_normal_torch', {'normal'}, None), ('exponential_torch', None, symmetric_exponential)):
        fx = Fx()
        out += sampler_obs(fx, fx.call(TU + q, fx.v('cpu')), q, kinds, law)
    return out, fx.coverage()


def c09_sampler():
    """the sampler of the noise module: symmetric exponential, one independent draw per entry"""
    fx = Fx()
    return sampler_obs(fx, fx.call('cbx.noise:exponential_sampler'), 'exponential_sampler', None, symmetric_exponential), fx.coverage()


def c26_post(thresh):
    D = Dyn(dc.mkcfg(dc.mk('CBO', 'none', 'all')))
    I = D.I
    xp = D.mkarr('XP', D.xshape)
    D.set('x', xp)
    kw = {}
    if thresh:
        T.SYM_POS.add('th')
        T.SYM_NONNEG.add('th')
        kw['max_thresh'] = Num(sym('th'))
    th = sym('th') if thresh else c(10 ** 8)
    p = I.call(I.lookup(TU + 'post_process_default_torch'), [], kw)
    I.call(p, [D.obj], {})
    con, lab = 'post_process_default_torch', 'max_thresh given' if thresh else 'default'
    t, sh = D.term('x'), D.shape('x')
    if t is None:
        return [ob('torch-post-process', con, 'undecided', lab)], D.coverage()
    out = [ob('shape', con, 'held' if sh == D.xshape else 'violated', lab, 'shape')]
    out += nc.bounded(t, sh, th, [nc.NotANumber(s, syms={'th': 2.5}) for s in range(3)], [nc.Huge(s, {'XP'}, 1e12) for s in range(3)], con, lab)
    vs = [atom(v) for q in shape_vars(sh) for v in q]
    out.append(from_verdict(ri.compare(t, T.arr('XP', vs), ri.shape_exts(sh), [ri.Model(s, syms={'th': 1.5}) for s in range(4)]), 'identity-on-admissible', con, lab))
    hm = [nc.Huge(s, {'XP'}, 1e12) for s in range(3)]
    out.append(from_verdict(ri.compare(t, mul(th, T.fn('sign', T.arr('XP', vs))), ri.shape_exts(sh), hm), 'clipped-to-bound', con, lab))
    return out, D.coverage()


# ---------------------------------------------------------------- sample size scheduler
def c26_ess(nit):
    """alpha per run is the result of the bisection for the effective sample size with the documented bracket"""
    def build(qual, col):
        D = Dyn(dc.mkcfg(dc.mk('CBO', 'none', 'all')))
        I = D.I
        T.SYM_POS.update(('eta', 'mx', 'mi'))
        T.SYM_NONNEG.update(('eta', 'mx', 'mi'))
        D.set('energy', D.mkarr('E', (mkdim(M), mkdim(N))))
        s = I.call(I.lookup(qual), [], dict(eta=Num(sym('eta')), maximum=Num(sym('mx')), minimum=Num(sym('mi')), solve_max_it=Num(nit, 'int')))
        a0, h0 = dict(D.attrs()), dict(I.heap)
        I.call(I.getattr(s, 'update'), [D.obj], {})
        return D, [k for k in sc.changed_attrs(D, a0, h0) if k != 'alpha']
    D, ch = build(TU + 'effective_sample_size', True)
    con, lab = 'torch effective_sample_size.update', '%d iterations' % nit
    t, sh = D.term('alpha'), D.shape('alpha')
    out = [ob('only-its-parameter', con, 'violated' if ch else 'held', lab, 'effects', 'also changes ' + ', '.join(sorted(ch)) if ch else '')]
    if t is None or sh is None:
        return out + [ob('sample-size', con, 'undecided', lab, '', 'unknown value')], D.coverage()
    if [extent(q) for q in sh] != [M, ONE]:
        out.append(ob('sample-size', con, 'violated', lab, 'shape', 'shape (%s)' % ', '.join(T.show(extent(q)) for q in sh), D.blame('alpha')))
        return out, D.coverage()

    vs = shape_vars(sh)
    mm = [ri.Model(s, syms={'eta': .3 + .1 * s, 'mx': 3. + s, 'mi': .01}) for s in range(5)]
    v = ri.compare(t, (sym('mi') + sym('mx')) / 2, ri.shape_exts(sh), mm, npoints=8)
    out.append(from_verdict(v, 'sample-size', con, lab))
    return out, D.coverage()


# ---------------------------------------------------------------- model evaluation
PNAMES = (('w1', ('p', 'q')), ('b1', ('p',)), ('w2', ('r', 'p')), ('b2', ('r',)))


def models_fx():
    """opaque torch.func: the stacked parameters of N models, and a model that is a function of its parameters"""
    fx = Fx()
    I = fx.I
    ps = {n: fx.arr('P_' + n, ['N'] + list(s)) for n, s in PNAMES}
    fx.params = ps
    seen = []

    def stack(I, a, k):
        return Tup([I.mkdict({('s', n): v for n, v in ps.items()}), I.mkdict({})])

    def call(I, a, k):
        st = a[1]
        par = st.items[0] if isinstance(st, Tup) else st
        seen.append((a[0], dict(I.heap[par.id].d) if hasattr(par, 'id') else {}, a[2] if len(a) > 2 else None))
        h = fx.onmodel
        return h(I, seen[-1]) if h else NONE
    fx.onmodel = None
    fx.seen = seen
    I.ext = {'torch.func.stack_module_state': stack, 'torch.func.functional_call': call}
    return fx


def layout():
    """offset of every parameter in the flat vector"""
    off, pos = {}, ZERO
    for n, s in PNAMES:
        size = ONE
        for e in s:
            size = mul(size, T.dim(e))
        off[n] = (pos, size)
        pos = add(pos, size)
    return off, pos


def c26_layout(sel):
    """get_param_properties: (shape, begin, end) of consecutive blocks; flatten_parameters fills them in the same order"""
    out = []
    fx = models_fx()
    names = [n for n, _ in PNAMES] if sel is None else sel
    kw = {} if sel is None else {'pnames': fx.v(list(sel))}
    pp = fx.call(TU + 'get_param_properties', Py(lambda I, a, k: NONE, 'models'), **kw)
    con = 'get_param_properties'
    lab = 'all parameters' if sel is None else 'parameters ' + ','.join(sel)
    if not hasattr(pp, 'id') or not hasattr(fx.I.heap[pp.id], 'd'):
        return [ob('parameter-layout', con, 'undecided', lab, '', 'result %r' % (pp,))], fx.coverage()
    d = fx.I.heap[pp.id].d
    if [k[1] for k in d] != list(names):
        return [ob('parameter-layout', con, 'violated', lab, 'keys', 'keys %s' % (list(d),))], fx.coverage()
    pos = ZERO
    sizes = {}
    for n in names:
        shape = dict(PNAMES)[n]
        size = ONE
        for e in shape:
            size = mul(size, T.dim(e))
        v = d[('s', n)]
        it = v.items if isinstance(v, Tup) else None
        if it is None or len(it) < 3 or not isinstance(it[-1], Num) or not isinstance(it[-2], Num) or not isinstance(it[0], Tup):
            out.append(ob('parameter-layout', con, 'undecided', lab, '', 'entry %r' % (v,)))
            return out, fx.coverage()
        oks = [isinstance(z, Num) and T.equal(z.p, T.dim(e)) for z, e in zip(it[0].items, shape)]
        good = len(it[0].items) == len(shape) and all(oks) and T.equal(it[-2].p, pos) and T.equal(it[-1].p, add(pos, size))
        out.append(ob('parameter-layout', con, 'held' if good else 'violated', lab + ' entry ' + n, 'normal form', '' if good else 'block [%s, %s)' % (T.show(it[-2].p), T.show(it[-1].p))))
        sizes[n] = (pos, size)
        pos = add(pos, size)
    # flat vector
    r = fx.call(TU + 'flatten_parameters', Py(lambda I, a, k: NONE, 'models'), fx.v(list(names)))
    con = 'flatten_parameters'
    t, sh = fx.term(r)
    if sh is None or t is None:
        return out + [ob('flat-parameters', con, 'undecided', lab, '', 'result %r' % (r,))], fx.coverage()
    if len(sh) != 2 or not T.equal(extent(sh[0]), T.dim('N')) or not T.equal(extent(sh[1]), pos):
        return out + [ob('flat-parameters', con, 'violated', lab, 'shape', 'shape (%s)' % ', '.join(T.show(extent(q)) for q in sh))], fx.coverage()
    for n in names:
        off, size = sizes[n]
        # entry at the block of n, for every index of the parameter
        iv = [atom(T.fresh()) for _ in dict(PNAMES)[n]]
        flat = ZERO
        for i, e in zip(iv, dict(PNAMES)[n]):
            flat = add(mul(flat, T.dim(e)), i)
        row = atom(T.fresh())
        vs = shape_vars(sh)
        got = fx.I.lib.getitem(r, Tup([Num(row, 'int'), Num(add(off, flat), 'int')]))
        gt = fx.term(got)[0]
        if gt is None:
            out.append(ob('flat-parameters', con, 'undecided', lab + ' block ' + n))
            continue
        ex = {ri_var(i): T.dim(e) for i, e in zip(iv, dict(PNAMES)[n])}
        ex[ri_var(row)] = T.dim('N')
        v = ri.compare(gt, T.arr('P_' + n, [row] + iv), ex, [ri.Model(s) for s in range(5)])
        out.append(from_verdict(v, 'flat-parameters', con, lab + ' block ' + n))
    return out, fx.coverage()


def ri_var(p):
    return next(iter(p.fv))


def c26_eval(which):
    """a model evaluated with the flat vector of run/particle n gets every parameter with the block of that vector"""
    out = []
    fx = models_fx()
    I = fx.I
    pp = fx.call(TU + 'get_param_properties', Py(lambda I, a, k: NONE, 'models'))
    off, tot = layout()
    T.dim('N')
    wl = I.arr((mkdim(T.dim('N')), mkdim(tot)), None)
    a, b = T.fresh(), T.fresh()
    sh = (mkdim(T.dim('N')), mkdim(tot))
    vs = shape_vars(sh)
    wl = I.arr(sh, T.arr('W', [atom(vs[0][0]), atom(vs[1][0])]))
    model = Py(lambda I, a, k: NONE, 'model')
    data = fx.arr('DATA', ['k', 'q'])
    probe = {}

    def onmodel(I, rec):
        probe['rec'] = rec
        probe['terms'] = {k: fx.term(v) for k, v in rec[1].items()}
        ts = probe['terms']
        t = ZERO
        for n, s in PNAMES:
            tt, s2 = ts[('s', n)]
            if tt is None:
                return I.top('parameter')
            b = [(T.fresh(), T.dim(e)) for e in s]
            body = T.subst(tt, {v[0]: atom(x) for v, (x, _) in zip(shape_vars(s2), b) if v})
            t = add(t, T.app('mod_' + n, b, (body,), ()))
        # output: one row per datum
        o = (mkdim(T.dim('k')), mkdim(T.dim('o')))
        ov = shape_vars(o)
        return I.arr(o, T.app('modelout', [], (t,), (atom(ov[0][0]), atom(ov[1][0]))))
    fx.onmodel = onmodel
    con = which
    if which in ('eval_model', 'eval_loss'):
        row = atom(T.fresh())
        w = I.lib.getitem(wl, Num(row, 'int'))
    else:
        w = wl

    def total(r):
        t = ZERO
        for n, s in PNAMES:
            b = [(T.fresh(), T.dim(e)) for e in s]
            flat = ZERO
            for (x, _), e in zip(b, s):
                flat = add(mul(flat, T.dim(e)), atom(x))
            t = add(t, T.app('mod_' + n, b, (T.arr('W', [r, add(off[n][0], flat)]),), ()))
        return t
    lossf = opaque_loss()
    y = fx.arr('YD', ['k'])
    if which == 'eval_model':
        r = fx.call(TU + which, data, model, w, pp)
        ref = lambda i, o: T.app('modelout', [], (total(row),), (i, o))
        ds = ['k', 'o']
    elif which == 'eval_models':
        r = fx.call(TU + which, data, model, w, pp)
        ref = lambda n, i, o: T.app('modelout', [], (total(n),), (i, o))
        ds = ['N', 'k', 'o']
    elif which == 'eval_loss':
        r = fx.call(TU + which, data, y, lossf, model, w, pp)
        ref = lambda: loss_ref(lambda i, o: T.app('modelout', [], (total(row),), (i, o)))
        ds = []
    else:
        r = fx.call(TU + which, data, y, lossf, model, w, pp)
        ref = lambda n: loss_ref(lambda i, o: T.app('modelout', [], (total(n),), (i, o)))
        ds = ['N']
    if 'rec' not in probe:
        return [ob('model-evaluation', con, 'undecided', '', '', 'functional_call not reached')], fx.coverage()
    rec = probe['rec']
    okm = rec[0] is model and rec[2] is data
    out.append(ob('model-evaluation', con, 'held' if okm else 'violated', 'model and data passed on', 'effects', '' if okm else 'other model or data'))
    want = {('s', n) for n, _ in PNAMES}
    if set(rec[1]) != want:
        out.append(ob('model-evaluation', con, 'violated', 'parameters', 'keys', 'parameters %s' % sorted(map(str, rec[1]))))
        return out, fx.coverage()
    for n, s in PNAMES:
        t2, s2 = probe['terms'][('s', n)]
        good = s2 is not None and [extent(q) for q in s2] == [T.dim(e) for e in s]
        out.append(ob('model-evaluation', con, 'held' if good else 'violated' if s2 is not None else 'undecided', 'shape of ' + n, 'shape'))
    ms = [ri.Model(s) for s in range(5)]
    if ds:
        out.append(fx.same(r, ds, ref, 'model-evaluation', con, models=ms, npoints=6))
    else:
        t, sh2 = fx.term(r)
        if t is None or sh2 != ():
            out.append(ob('model-evaluation', con, 'undecided' if t is None else 'violated', 'value'))
        else:
            v = ri.compare(t, ref(), {ri_var(row): T.dim('N')}, ms, npoints=6)
            out.append(from_verdict(v, 'model-evaluation', con, 'value'))
    return out, fx.coverage()


def opaque_loss():
    def loss(I, a, k):
        if not all(isinstance(v, Arr) for v in a[:2]):
            return I.top('loss')
        (t, sh), (t2, sh2) = [(I.read(v), I.shape(v)) for v in a[:2]]
        if t is None or t2 is None or len(sh) != 2 or len(sh2) != 1:
            return I.top('loss')
        b = [(T.fresh(), extent(q)) for q in sh]
        vs, v2 = shape_vars(sh), shape_vars(sh2)
        body = T.subst(t, {v[0]: atom(x) for v, (x, _) in zip(vs, b)})
        y = T.subst(t2, {v2[0][0]: atom(b[0][0])})
        return I.arr((), T.app('LOSS', b, (body, y), ()))
    return Py(loss, 'loss')


def loss_ref(out):
    b = [(T.fresh(), T.dim('k')), (T.fresh(), T.dim('o'))]
    return T.app('LOSS', b, (out(atom(b[0][0]), atom(b[1][0])), T.arr('YD', [atom(b[0][0])])), ())


def c26_acc():
    """accuracy: correctly classified data over all batches of the loader divided by their number"""
    fx = models_fx()
    I = fx.I
    pp = fx.call(TU + 'get_param_properties', Py(lambda I, a, k: NONE, 'models'))
    off, tot = layout()
    sh = (mkdim(tot),)
    w = I.arr(sh, T.arr('W', [atom(shape_vars(sh)[0][0])]))
    bs = [(fx.arr('DA', ['k1', 'q']), fx.arr('YA', ['k1'], 'i', ('int',))), (fx.arr('DB', ['k2', 'q']), fx.arr('YB', ['k2'], 'i', ('int',)))]
    outs = {}

    def onmodel(I, rec):
        x = rec[2]
        t, s2 = fx.term(x)
        nm = 'A' if x == bs[0][0] else 'B' if x == bs[1][0] else '?'
        o = (s2[0], mkdim(T.dim('o')))
        v = shape_vars(o)
        return I.arr(o, T.arr('OUT' + nm, [atom(v[0][0]), atom(v[1][0])]))
    fx.onmodel = onmodel
    loader = I.mklist([Tup(list(b)) for b in bs])
    r = fx.call(TU + 'eval_acc', Py(lambda I, a, k: NONE, 'model'), w, pp, loader)
    t, s2 = fx.term(r)
    con = 'eval_acc'
    if t is None:
        return [ob('accuracy', con, 'undecided', '', '', 'result %r' % (r,))], fx.coverage()
    ms = []
    for s in range(8):
        ms.append(ri.Model(s))
    bad, n = '', 0
    for mo in ms:
        k1, k2, o = (int(mo.dim(x)) for x in ('k1', 'k2', 'o'))
        tot_ = 0
        for nm, k in (('A', k1), ('B', k2)):
            for i in range(k):
                row = [mo.arr('OUT' + nm, (i, j)) for j in range(o)]
                tot_ += float(row.index(max(row)) == mo.arr('Y' + nm, (i,)))
        try:
            v = mo.ev(t, {})
        except ri.Skip:
            continue
        n += 1
        if not ri.close(v, tot_ / (k1 + k2)):
            bad = 'accuracy %.4g instead of %.4g' % (v, tot_ / (k1 + k2))
    return [ob('accuracy', con, 'violated' if bad else 'held' if n > 2 else 'undecided', '', 'random-interpretation', bad or '%d models' % n)], fx.coverage()


# ---------------------------------------------------------------- dynamics
TORCH = ('CBO', 'MirrorCBO', 'DriftConstrainedCBO', 'RegCombinationCBO', 'PolarCBO')


def polar_fun(D):
    return D.I.lookup(TU + 'compute_polar_consensus_torch')


def tmk(name, batch='none', active='subset', **kw):
    if name == 'PolarCBO':
        kw.setdefault('compute_consensus', polar_fun)
    d = dc.mk(name, batch, active, **kw)
    d['cls'] = 'torch:' + d['cls']
    return d


def variants(tier):
    bl = [('none', 'all'), ('partial', 'subset'), ('full', 'subset')] if tier == 'quick' else [(b, a) for b in ('none', 'partial', 'full') for a in ('all', 'subset')]
    out = [tmk(n, b, a) for n in TORCH for b, a in bl]
    for n in TORCH if tier != 'quick' else ('CBO', 'MirrorCBO'):
        for nz in ('anisotropic', 'constant'):
            for b, a in ([('none', 'subset')] if tier == 'quick' else bl):
                out.append(tmk(n, b, a, noise=nz))
    for b, a in bl[1:2] if tier == 'quick' else bl:
        out.append(tmk('CBO', b, a, ddim=2))
    if tier != 'quick':
        for k in dc.KERNELS:
            out.append(tmk('PolarCBO', 'none', 'subset', kernel=k))
    return out


def c26_installed(name):
    """the torch class uses the torch functions unless the user gives others"""
    out = []
    d = tmk(name, 'none', 'all')
    cfg = dc.mkcfg(d)
    cfg.kw = dict(cfg.kw, post_process=lambda D: UNDEF)
    D = Dyn(cfg)
    n0 = len(D.I.events)
    D.step()
    return out, D.coverage()


def c26_tasks(tier):
    out = [('consensus %d' % k, c26_consensus, (k,)) for k in (1, 2)]
    out += [('polar', c26_polar, (1,)), ('polar 2d', c26_polar, (2,)), ('norm', c26_norm, ()), ('samplers', c26_samplers, ())]
    out += [('post %s' % t, c26_post, (t,)) for t in (False, True)]
    out += [('ess', c26_ess, (0,)), ('ess equation', sc.c20_ess_update, (True,))]
    out += [('layout', c26_layout, (None,)), ('layout sel', c26_layout, (('w2', 'w1'),))]
    out += [(w, c26_eval, (w,)) for w in ('eval_model', 'eval_models', 'eval_loss', 'eval_losses')]
    out.append(('accuracy', c26_acc, ()))
    for d in variants(tier):
        for fn in (dc.c06_consensus, dc.c08_update, dc.c03_counts) + ((dc.c05_best,) if hasattr(dc, 'c05_best') else ()):
            out.append(('torch %s %s' % (dc.label(d), fn.__name__), fn, (d,)))
        if d['active'] == 'subset':
            out.append(('torch %s frozen' % dc.label(d), dc.c02_frozen, (d,)))
    return out
