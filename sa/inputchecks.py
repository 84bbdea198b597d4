"""C16 user inputs are not modified, C17 seeded reproducibility."""
from . import terms as T, ri
from .terms import ZERO, ONE, atom, add, sub, mul, div, neg, fresh
from .fx import Fx, sym, c, opaque_field
from .runner import ob, from_verdict, ROOT
from .interp import (Interp, Arr, Num, NONE, Py, Obj, Raised, extent, shape_vars, ExtObj, UNDEF, BufRec, ListRec, DictRec, ObjRec, Lst, Dct, mkdim, Str, Fun)
from .config import Cfg, Dyn, M, N, B, A, R, to_v, fact, reset_terms
from .spec import View, models_for
from . import dynchecks as dc, objchecks, libchecks as lc


class Watch:
    """user objects and their contents at the time they are handed over"""

    def __init__(self, I):
        self.I, self.items, self.seen = I, [], {}

    def add(self, name, v):
        if isinstance(v, (Arr, Lst, Dct)):
            i = self.I.root_buf(v.id) if isinstance(v, Arr) else v.id
            if i in self.seen:
                return v
            self.seen[i] = 1
            rec = self.I.heap[i]
            self.items.append((name, v, i, rec, self.I.read(v) if isinstance(v, Arr) else None))
            if isinstance(rec, ListRec):
                for k, x in enumerate(rec.items or ()):
                    self.add('%s[%d]' % (name, k), x)
            elif isinstance(rec, DictRec):
                for k, x in rec.d.items():
                    self.add('%s[%r]' % (name, k[1] if isinstance(k, tuple) else k), x)
        return v

    def check(self, con, lab, rule='inputs-unchanged'):
        out = []
        for name, v, i, rec, t in self.items:
            now = self.I.heap.get(i)
            ok, det = True, ''
            if now is not rec:
                ok, det = False, '%s is modified' % name
                if isinstance(v, Arr) and isinstance(now, BufRec):
                    t1 = self.I.read(v)
                    sh = self.I.shape(v)
                    if t is not None and t1 is not None:
                        vd = ri.compare(t1, t, ri.shape_exts(sh), [ri.Model(s) for s in range(5)], npoints=10)
                        ok = vd.eq is not False
                    elif t1 is None and not any(e.kind in ('write', 'store') and e.data.get('root') == i for e in self.I.events):
                        ok = None
                elif isinstance(now, ListRec) and isinstance(rec, ListRec):
                    ok = now.items == rec.items and now.sym is rec.sym
                elif isinstance(now, DictRec) and isinstance(rec, DictRec):
                    ok = list(now.d.items()) == list(rec.d.items())
            site = ''
            if ok is False:
                for e in self.I.events:
                    if e.kind in ('write', 'store') and e.data.get('root') == i:
                        site = '%s:%s' % e.site
            out.append(ob(rule, con + ' ' + name.split('[')[0], 'undecided' if ok is None else 'held' if ok else 'violated', lab, 'effects and points-to', det, site))
        return out


def reachable_bufs(I, v, seen=None):
    """root buffers reachable from a value"""
    out, st, seen = set(), [v], set()
    while st:
        x = st.pop()
        if isinstance(x, Arr):
            out |= {j for j in I.may_alias(x.id)}
            out.add(I.root_buf(x.id))
            continue
        k = getattr(x, 'id', None)
        if k is None:
            if hasattr(x, 'items') and isinstance(getattr(x, 'items'), (list, tuple)):
                st.extend(x.items)
            continue
        if k in seen:
            continue
        seen.add(k)
        rec = I.heap.get(k)
        if isinstance(rec, ListRec):
            st.extend(rec.items or ())
        elif isinstance(rec, DictRec):
            st.extend(rec.d.values())
        elif isinstance(rec, ObjRec):
            st.extend(rec.attrs.values())
    return out


def user_kwargs(D, cls):
    """arguments as a user would keep them: arrays, dicts and lists"""
    I = D.I
    kw = {}
    kw['alpha'] = I.arr((mkdim(M), mkdim(ONE)), T.arr('ALPHA', [atom(shape_vars((mkdim(M), mkdim(ONE)))[0][0])]), 'f')
    T.ARR_PROP['ALPHA'] = {'pos', 'nonneg'}
    kw['track_args'] = to_v(I, {'names': ['x', 'energy', 'update_norm', 'consensus', 'sigma'], 'save_int': 2, 'extra_tracks': []})
    kw['term_criteria'] = to_v(I, [{'name': 'max_it', 'max_it': 7}, 'energy-tol', {'name': 'diff_tol', 'diff_tol': 1e-3}])
    if cls == 'DriftConstrainedCBO':
        kw['constraints'] = to_v(I, [{'name': 'sphere', 'r': 1.5}, {'name': 'quadric', 'A': arr2(D, 'QA'), 'b': arr1(D, 'QB'), 'c': 0.5}])
    elif cls == 'RegCombinationCBO':
        kw['constraints'] = to_v(I, [{'name': 'sphere', 'r': 1.5}])
    elif cls == 'HyperSurfaceCBO':
        kw['sdf'] = to_v(I, {'name': 'plane', 'a': arr1(D, 'PA'), 'b': 1.0})
    elif cls == 'MirrorCBO':
        kw['mirrormap'] = to_v(I, {'name': 'ProjectionHyperplane', 'a': arr1(D, 'PA'), 'b': 1.0})
    return kw


def arr1(D, name):
    return D.mkarr(name, (mkdim(D.dd[0]),))


def arr2(D, name):
    return D.mkarr(name, (mkdim(D.dd[0]), mkdim(D.dd[0])))


class DynU(Dyn):
    """keeps a Watch on everything passed to the constructor"""

    def __init__(self, cfg, rank=3, dtype='f', batch=None):
        self._rank, self._dtype, self._w = rank, dtype, None
        cfg.kw = dict(cfg.kw)
        cls = cfg.cls.split(':')[-1]
        mine = {}

        def grab(name):
            def f(D):
                if not mine:
                    mine.update(user_kwargs(D, cls))
                    D.watch = Watch(D.I)
                    for k, v in mine.items():
                        D.watch.add(k, v)
                    if batch:
                        mine['batch_args'] = D.watch.add('batch_args', to_v(D.I, batch))
                    D.watch.add('x', D.x0)
                return mine.get(name, UNDEF)
            return f
        for k in ['alpha', 'track_args', 'term_criteria', 'constraints', 'sdf', 'mirrormap', 'batch_args']:
            cfg.kw[k] = grab(k)
        super().__init__(cfg)

    def mkarr(self, name, shape, dtype='f', props=()):
        if name == 'X0':
            shape = shape[3 - self._rank:]
            return super().mkarr(name, shape, self._dtype, props)
        return super().mkarr(name, shape, dtype, props)


def c16_dynamic(cls, batch, active, rank=3, dtype='f', extra=None):
    """construction, steps, termination test, scheduler and reset leave the user's objects alone; positions do not alias the initial positions"""
    d = dc.mk(cls, batch, active, **(extra or {}))
    cfg = dc.mkcfg(d)
    lab = dc.label(d) + ('' if rank == 3 else ' x of rank %d' % rank) + (' integer x' if dtype == 'i' else '')
    ba = {'size': Num(B, 'int'), 'partial': batch == 'partial', 'seed': 3} if batch != 'none' else None
    D = DynU(cfg, rank, dtype, ba)
    I = D.I
    out = []
    roots = {I.root_buf(D.x0.id)}
    bad = []
    for k, v in D.attrs().items():
        if isinstance(v, Arr) and (I.root_buf(v.id) in roots or roots & set(I.may_alias(v.id))):
            bad.append(k)
    out.append(ob('state-not-aliased', cls + ' x', 'violated' if bad else 'held', lab, 'points-to', ', '.join(bad)))
    if rank == 3 and dtype == 'f':
        D.activate()
        for _ in range(2):
            D.step()
    else:
        D.step()
    D.call('terminate')
    s = D.call('default_sched')
    I.call(I.getattr(s, 'update'), [D.obj], {})
    for n in ('alpha', 'sigma'):
        p = I.call(I.lookup('cbx.scheduler:multiply'), [], {'name': Str(n), 'factor': Num(sym('fac')), 'maximum': Num(sym('mx'))})
        I.call(I.getattr(p, 'update'), [D.obj], {})
    D.call('reset')
    out += D.watch.check(cls, lab)
    return out, D.coverage()


# ---------------------------------------------------------------- functions
def c16_function(label, build):
    fx = Fx()
    f, args = build(fx)
    w = Watch(fx.I)
    for k, v in args.items():
        w.add(k, v)
    del fx.I.events[:]
    r = fx.I.call(f, list(args.values()), {})
    return w.check(label, label), fx.coverage()


def function_cases():
    out = []

    def objective(name, i):
        def b(fx):
            kw, dim, ref = objchecks.OBJ[name][i]
            return fx.new(objchecks.MOD + name, **objchecks.build(fx, kw)), {'x': fx.arr('X', ['M', 'N', dim])}
        return b
    for name in objchecks.OBJ:
        out.append(('objectives.' + name, objective(name, 0)))

    def con(key, meth, extra=()):
        def b(fx):
            g = lc.CONS[key]
            o = fx.app(fx.I.lookup(lc.CM + 'get_constraints'), [dict(name=g.name, **lc.par(fx, g.kw))])
            o = fx.I.heap[o.id].items[0]
            a = {'x': lc.xs(fx)}
            a.update({k: lc.xs(fx, k) if not isinstance(v, (int, float)) else fx.v(v) for k, v in extra})
            return fx.attr(o, meth), a
        return b
    for key in ('sphere', 'plane', 'quadric'):
        for m in ('__call__', 'squared', 'grad', 'grad_squared', 'hessian', 'hessian_squared'):
            out.append(('constraints.%s.%s' % (key, m), con(key, m)))

    def cons(qual):
        def b(fx):
            f = fx.I.lookup(qual)
            if not isinstance(f, Fun):
                f = fx.I.call(f, [], {})
            return f, {'energy': fx.arr('E', ['M', 'N']), 'x': fx.arr('X', ['M', 'N', 'd']), 'alpha': fx.arr('AL', ['M', 1])}
        return b
    out.append(('compute_consensus_default', cons('cbx.dynamics.pdyn:compute_consensus_default')))
    out.append(('compute_consensus_rescale', cons('cbx.dynamics.hypersurfacecbo:compute_consensus_rescale')))
    return out


def c16_tasks(tier):
    out = []
    confs = [('none', 'all'), ('partial', 'subset')] if tier == 'quick' else [('none', 'all'), ('none', 'subset'), ('partial', 'subset'), ('full', 'subset')]
    for cls in dc.BY:
        for b, a in confs:
            if cls == 'CBS' and b != 'none':
                continue
            out.append(('%s %s %s' % (cls, b, a), c16_dynamic, (cls, b, a)))
        if cls in ('CBO', 'PSO', 'CBOMemory', 'MirrorCBO') or tier != 'quick':
            out.append(('%s rank 2' % cls, c16_dynamic, (cls, 'none', 'all', 2)))
            out.append(('%s rank 1' % cls, c16_dynamic, (cls, 'none', 'all', 1)))
            out.append(('%s int' % cls, c16_dynamic, (cls, 'none', 'all', 3, 'i')))
    for nz in ('anisotropic', 'constant', 'covariance'):
        out.append(('CBO ' + nz, c16_dynamic, ('CBO', 'none', 'all', 3, 'f', {'noise': nz})))
    for co in ('heavi_side', 'heavi_side_reg'):
        out.append(('CBO ' + co, c16_dynamic, ('CBO', 'none', 'all', 3, 'f', {'correction': co})))
    out.append(('CBO post', c16_dynamic, ('CBO', 'none', 'all', 3, 'f', {'post_process': dc.default_post})))
    for lab, b in function_cases():
        out.append((lab, c16_function, (lab, b)))
    return out


# ---------------------------------------------------------------- C17
def draws(I, since=0):
    return [e for e in I.events[since:] if e.kind == 'rng']


def src_of(e):
    s = e.data.get('src')
    if isinstance(s, ExtObj):
        return s.data.get('src', 'generator'), s.data.get('seed', NONE), s
    return s, None, None


def seed_ok(e, wanted):
    nm, seed, o = src_of(e)
    if o is None:
        return False, 'drawn from the %s generator' % nm
    if seed is NONE or seed is None:
        return False, 'drawn from an unseeded generator'
    if isinstance(seed, Num) and any(T.equal(seed.p, w) for w in wanted):
        return True, ''
    if isinstance(seed, Num):
        return False, 'drawn from a generator seeded with %s' % T.show(seed.p)
    return None, 'seed not resolved'


def c17_seeded(cls, batch, active, given, extra=None):
    """with a seed, every draw of construction and steps comes from a generator of this dynamic seeded by the user"""
    d = dc.mk(cls, batch, active, **(extra or {}))
    cfg = dc.mkcfg(d)
    cfg.kw = dict(cfg.kw)
    T.INT_SYMS.add('seed')
    cfg.kw['seed'] = Num(sym('seed'), 'int')
    cfg.kw['check_f_dims'] = True
    if not given:
        cfg.kw.update(x=lambda D: UNDEF, M=Num(M, 'int'), N=Num(N, 'int'), d=lambda D: Num(D.dd[0], 'int'))
    if batch != 'none':
        cfg.kw['batch_args'] = {'size': Num(B, 'int'), 'partial': batch == 'partial', 'seed': Num(sym('bseed'), 'int')}
    D = Dyn(cfg)
    I = D.I
    lab = dc.label(d) + ('' if given else ' random initial positions')
    D.activate()
    D.step()
    D.step()
    D.call('terminate')
    s = D.call('default_sched')
    I.call(I.getattr(s, 'update'), [D.obj], {})
    D.call('reset')
    wanted = [sym('seed'), sym('bseed')]
    out = []
    ds = draws(I)
    bysite = {}
    for e in ds:
        ok, det = seed_ok(e, wanted)
        if ok is True and e.data.get('kind_') == 'perm' and batch != 'none':
            sd = src_of(e)[1]
            if not T.equal(sd.p, sym('bseed')):
                ok, det = False, 'batch permutation from the generator of seed %s' % T.show(sd.p)
        site = e.site[0].split('.')[-1].split(':')[-1] if isinstance(e.site[0], str) else str(e.site)
        bysite.setdefault((site, '%s:%s' % e.site), []).append((ok, det))
    for (fn, st), l in sorted(bysite.items()):
        bad = [x for x in l if x[0] is False]
        und = [x for x in l if x[0] is None]
        out.append(ob('seeded-draws', fn, 'violated' if bad else 'undecided' if und else 'held', lab, 'effects', (bad or und or l)[0][1], st if bad else ''))
    for e in I.events:
        if e.kind == 'rngseed':
            out.append(ob('seeded-draws', cls, 'violated', lab, 'effects', 'changes the global random state', '%s:%s' % e.site))
    if not ds:
        out.append(ob('seeded-draws', cls, 'undecided', lab, '', 'no draws found'))
    # a second dynamic with the same seed has generators of its own
    own = {id(src_of(e)[2]) for e in ds if src_of(e)[2] is not None}
    n0 = len(I.events)
    o2 = I.instantiate(D.klass, [cfg_f(D)], D.kw)
    first = D.obj
    D.obj = o2
    try:
        D.activate()
        D.step()
    finally:
        D.obj = first
    shared = [e for e in draws(I, n0) if id(src_of(e)[2]) in own]
    out.append(ob('own-generator', cls, 'violated' if shared else 'held', lab, 'points-to', 'the generator is shared with another dynamic' if shared else '',
                  '%s:%s' % shared[0].site if shared else ''))
    return out, D.coverage()


def cfg_f(D):
    return D.F


def c17_sampler(cls, batch, extra=None):
    """a given sampler provides all noise"""
    calls = []
    d = dc.mk(cls, batch, 'all', **(extra or {}))
    cfg = dc.mkcfg(d)
    cfg.kw = dict(cfg.kw)

    def smp(I, a, k):
        calls.append(1)
        size = a[0] if a else k.get('size', NONE)
        n0 = len(I.events)
        r = I.lib._rand(size, 'normal', 'user')
        return r
    cfg.kw['sampler'] = Py(smp, 'sampler')
    D = Dyn(cfg)
    n0 = len(D.I.events)
    D.step()
    bad = [e for e in draws(D.I, n0) if e.data.get('src') != 'user' and e.data.get('kind_') != 'perm']
    ok = None if not calls and not bad else not bad
    return [ob('given-sampler', cls, 'undecided' if ok is None else 'held' if ok else 'violated', dc.label(d), 'effects',
               '' if not bad else 'noise not drawn from the given sampler', '%s:%s' % bad[0].site if bad else '')], D.coverage()


def c17_tasks(tier):
    out = []
    for cls in dc.BY:
        bl = [('none', 'all'), ('partial', 'subset')] if tier == 'quick' else [(b, a) for b in ('none', 'partial', 'full') for a in ('all', 'subset')]
        for b, a in bl:
            if cls == 'CBS' and b != 'none':
                continue
            for given in (True, False):
                if b != 'none' and not given and tier == 'quick':
                    continue
                out.append(('%s %s %s %s' % (cls, b, a, given), c17_seeded, (cls, b, a, given)))
        out.append(('sampler ' + cls, c17_sampler, (cls, 'none')))
    for cls in ('CBO', 'MirrorCBO', 'DriftConstrainedCBO', 'RegCombinationCBO'):
        for given in (True, False):
            out.append(('torch %s %s' % (cls, given), c17_seeded, ('torch:' + cls, 'none', 'all', given)))
        out.append(('torch sampler ' + cls, c17_sampler, ('torch:' + cls, 'none')))
    for v in dc.noise_variants(tier):
        out.append((dc.label(v), c17_seeded, (dc.short(v['cls']), v['batch'], v['active'], True, v.get('kw'))))
        out.append(('sampler ' + dc.label(v), c17_sampler, (dc.short(v['cls']), v['batch'], v.get('kw'))))
    for k in dc.KERNELS:
        out.append(('PolarCBO ' + k, c17_seeded, ('PolarCBO', 'none', 'subset', True, {'kernel': k})))
    return out
