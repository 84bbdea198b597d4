"""C15 history, C16 user inputs, C17 seeds, C19 post processing, C24 read-only observers."""
from . import terms as T, ri
from .terms import ZERO, ONE, atom, add, sub, mul, div, neg, fresh
from .fx import Fx, sym, c, pw, sumv, sums, opaque_field, axis_index
from .runner import ob, from_verdict, ROOT
from .interp import Arr, Num, NONE, Py, Obj, Raised, extent, shape_vars, Tup, Lst, Dct, Str, UNDEF, Phi, ListRec, DictRec, mkdim
from .config import Cfg, Dyn, M, N, B, A, to_v
from .spec import View, models_for
from . import dynchecks as dc


def hist_items(D, name):
    h = D.get('history')
    rec = D.I.heap.get(getattr(h, 'id', None))
    if rec is None or not hasattr(rec, 'd'):
        return None
    v = rec.d.get(('s', name))
    if v is None:
        return 'missing'
    r = D.I.heap.get(getattr(v, 'id', None))
    if not isinstance(r, ListRec) or r.sym is not None:
        return None
    return r.items


def value_terms(I, v):
    if isinstance(v, Arr):
        return [(I.read(v), I.shape(v))]
    if isinstance(v, Num):
        return [(v.p, ())]
    if isinstance(v, Tup):
        return [x for y in v.items for x in value_terms(I, y)]
    return []


def same_value(D, a, b, guard=None):
    ta, tb = value_terms(D.I, a), value_terms(D.I, b)
    if len(ta) != len(tb) or not ta:
        return ri.Verdict(None, 'unknown')
    for (x, s), (y, s2) in zip(ta, tb):
        if [extent(q) for q in s] != [extent(q) for q in s2]:
            return ri.Verdict(False, 'shape', 'recorded shape differs')
        if x is None or y is None:
            return ri.Verdict(None, 'unknown')
        v = ri.compare(x, y, ri.shape_exts(s), models_for(D), npoints=6)
        if v.eq is not True:
            return v
    return v


TRACK = {'x': 'x', 'energy': 'energy', 'update_norm': 'update_diff', 'consensus': 'consensus', 'drift': 'drift', 'best_energy': 'best_energy', 'best_particle': 'best_particle',
         'num_f_eval': 'num_f_eval', 'alpha': 'alpha', 'f_min': 'f_min'}


def c15_history(cls, batch, active, it, save):
    names = dict(TRACK)
    if cls == 'UserParticle':
        names = {k: TRACK[k] for k in ('x', 'energy', 'update_norm', 'best_energy', 'best_particle', 'num_f_eval')}
    if cls == 'MirrorCBO':
        names['y'] = 'y'
    D = Dyn(dc.mkcfg(dc.mk(cls, batch, active, track_args={'names': list(names), 'save_int': save})))
    D.ready()
    I = D.I
    D.set('it', Num(it, 'int'))
    D.set('track_it', Num(T.sym('ti'), 'int'))
    before = {n: hist_items(D, n) for n in names}
    D.step()
    lab = '%s batch=%s active=%s it=%d save_int=%d' % (cls, batch, active, it, save)
    out = []
    entries = {}
    for n, at in names.items():
        con = 'history[%s]' % n
        a, b = before[n], hist_items(D, n)
        if a == 'missing' or b == 'missing':
            out.append(ob('recorded-every-save_int', con, 'violated', lab, 'abstract execution', 'name is not recorded'))
            continue
        if a is None or b is None:
            out.append(ob('recorded-every-save_int', con, 'undecided', lab))
            continue
        want = 1 if it % save == 0 else 0
        k = len(b) - len(a)
        out.append(ob('recorded-every-save_int', con, 'held' if k == want else 'violated', lab, 'abstract execution', '%d entries added, expected %d' % (k, want)))
        if k == 1:
            e = b[-1]
            entries[n] = e
            v = same_value(D, e, D.get(at))
            out.append(from_verdict(v, 'records-current-value', con, lab))
    ti = D.term('track_it')
    if ti is not None:
        out.append(from_verdict(ri.compare(ti, add(T.sym('ti'), ONE if it % save == 0 else ZERO)), 'track-counter', 'track_it', lab))
    # snapshots: a further step (any state) does not change recorded entries
    snap = {n: value_terms(I, e) for n, e in entries.items()}
    D.set('it', Num(1 if save > 1 else it, 'int'))
    D.step()
    for n, e in entries.items():
        ok = all(x is y or (x is not None and y is not None and ri.compare(x, y, ri.shape_exts(s), models_for(D)).eq is not False)
                 for (x, s), (y, _) in zip(snap[n], value_terms(I, e)))
        out.append(ob('snapshots-stay', 'history[%s]' % n, 'held' if ok else 'violated', lab, 'points-to', '' if ok else 'the recorded array is changed by the next step'))
    return out, D.coverage()


def c15_drift_idx(batch, active):
    """drift records come with the indices of the particles they belong to"""
    D = Dyn(dc.mkcfg(dc.mk('CBO', batch, active, track_args={'names': ['drift', 'drift_mean'], 'save_int': 1})))
    D.ready()
    I = D.I
    D.set('it', Num(0, 'int'))
    D.step()
    lab = 'batch=%s active=%s' % (batch, active)
    out = []
    a, b = hist_items(D, 'drift'), hist_items(D, 'particle_idx')
    if a in (None, 'missing') or b in (None, 'missing') or not a or len(a) != len(b):
        out.append(ob('drift-indices', 'track_drift', 'undecided' if None in (a, b) else 'violated', lab, 'abstract execution', 'drift and particle_idx records do not match'))
        return out, D.coverage()
    x_old = D.get('x_old')
    sel = I.lib.getitem(x_old, b[-1])
    cons = D.get('consensus')
    exp = I.lib.binop('Sub', sel, cons)
    if exp is not None:
        out.append(from_verdict(same_value(D, a[-1], exp), 'drift-indices', 'track_drift', lab))
    m = hist_items(D, 'drift_mean')
    if m not in (None, 'missing') and m:
        t, sh = value_terms(I, a[-1])[0]
        vs = shape_vars(sh)
        tm, sm = value_terms(I, m[-1])[0]
        if t is not None and tm is not None and len(sm) == 1:
            i = atom(shape_vars(sm)[0][0])
            e2, e3 = extent(sh[1]), extent(sh[2])
            ref = div(sums([e2, e3], lambda p, q: T.abs_(T.subst(t, {vs[0][0]: i, vs[1][0]: p, vs[2][0]: q}))), mul(e2, e3))
            out.append(from_verdict(ri.compare(tm, ref, ri.shape_exts(sm), models_for(D)), 'records-current-value', 'history[drift_mean]', lab))
        else:
            out.append(ob('records-current-value', 'history[drift_mean]', 'undecided', lab))
    return out, D.coverage()


def c15_init():
    """initial history: positions recorded once before the first step; defaults; unknown names"""
    out = []
    for names, want in ((['x', 'energy'], {'x': 1, 'energy': 0}), (None, {'update_norm': 0, 'energy': 0}), ([], {}), (['sigma'], {'sigma': 0})):
        kw = {} if names is None else {'track_args': {'names': names}}
        D = Dyn(Cfg('cbx.dynamics.cbo:CBO', kw=dict(kw, **({'track_args': to_none()} if names is None else {})), root=ROOT))
        I = D.I
        h = I.heap[D.get('history').id].d
        got = {k[1]: len(I.heap[v.id].items) for k, v in h.items()}
        out.append(ob('initial-history', 'init_history', 'held' if got == want else 'violated', str(names), 'abstract execution', str(got)))
        if names and 'x' in names:
            e = hist_items(D, 'x')[0]
            out.append(from_verdict(same_value(D, e, D.get('x')), 'initial-history', 'history[x]', 'value'))
            ok = I.root_buf(e.id) != I.root_buf(D.get('x').id)
            out.append(ob('snapshots-stay', 'history[x]', 'held' if ok else 'violated', 'initial positions', 'points-to'))
    return out, D.coverage()


def c15_unknown():
    """a tracked name which the dynamic does not have: one warning, no entries, other records continue"""
    D = Dyn(dc.mkcfg(dc.mk('CBO', 'none', 'all', track_args={'names': ['no_such_attribute', 'x'], 'save_int': 1})))
    D.ready()
    D.set('it', Num(0, 'int'))
    I = D.I
    n0 = len(hist_items(D, 'x'))
    D.step()
    D.set('it', Num(1, 'int'))
    D.step()
    a, b = hist_items(D, 'no_such_attribute'), hist_items(D, 'x')
    w = [e for e in I.events if e.kind == 'warn']
    return [ob('unknown-name', 'default_track', 'held' if a == () or a == [] else 'violated', 'entries', 'abstract execution', str(a)),
            ob('unknown-name', 'default_track', 'held' if b is not None and len(b) == n0 + 2 else 'violated', 'other records', 'abstract execution', str(b and len(b))),
            ob('unknown-name', 'default_track', 'held' if len(w) <= 1 else 'violated', 'warnings', 'abstract execution', '%d warnings' % len(w))], D.coverage()


def to_none():
    return NONE


def c15_points(cls, batch, active, first):
    """save_consensus_eval_points: the recorded points are the positions at which the objective was evaluated for the consensus"""
    D = Dyn(dc.mkcfg(dc.mk(cls, batch, active, save_consensus_eval_points=True)))
    D.ready()
    I = D.I
    con, lab = 'consensus_eval_points', '%s batch=%s active=%s %s step' % (cls, batch, active, 'first' if first else 'later')
    if first:
        I.heap[D.obj.id].attrs.pop(con, None)
    else:
        D.set(con, D.mkarr('CEP', D.xshape))
    D.step()
    V = View(D)
    a = D.get(con)
    if not isinstance(a, Arr) or I.read(a) is None:
        return [ob('evaluation-points', con, 'violated' if a is None or a is UNDEF else 'undecided', lab, 'abstract execution', 'not recorded')], D.coverage()
    t, sh = I.read(a), I.shape(a)
    if [extent(z) for z in sh] != [extent(z) for z in D.xshape]:
        return [ob('evaluation-points', con, 'violated', lab, 'shape', 'shape differs from the ensemble')], D.coverage()
    at = [V.m, V.n] + V.ks
    t = T.subst(t, {v[0]: q for v, q in zip(shape_vars(sh), at)})
    x0 = T.subst(D.preterm('x'), {v[0]: q for v, q in zip(shape_vars(D.xshape), at)})
    inb = ONE if not V.batched else sumv(B, lambda b: T.ind_eq(sub(V.pi(V.m, b), V.n)))
    sel = mul(V.act(V.m), inb)
    out = [from_verdict(ri.compare(t, x0, V.exts, models_for(D), npoints=8, guard=sel), 'evaluation-points', con, lab)]
    if not first and (active, batch) != ('all', 'none'):
        out.append(from_verdict(ri.compare(t, T.arr('CEP', at), V.exts, models_for(D), npoints=8, guard=sub(ONE, sel)), 'other-points-stay', con, lab))
    al = [k for k in ('x', 'x_old', 'y', 'best_particle') if isinstance(D.get(k), Arr) and I.root_buf(D.get(k).id) == I.root_buf(a.id)]
    out.append(ob('snapshots-stay', con, 'violated' if al else 'held', lab, 'points-to', 'shares storage with ' + ', '.join(al) if al else ''))
    return out, D.coverage()


def c15_tasks(tier):
    out = []
    for cls in ('CBO', 'PolarCBO', 'MirrorCBO') if tier == 'quick' else [x for x in dc.BY if x not in dc.MEMORY]:      # dynamics with memory do not evaluate the objective for the consensus
        for b, a in (('none', 'all'), ('partial', 'subset')) + ((('full', 'subset'),) if cls == 'CBO' or tier != 'quick' else ()):
            if cls == 'CBS' and b != 'none':
                continue
            for f in (True, False):
                out.append(('points %s %s %s %s' % (cls, b, a, f), c15_points, (cls, b, a, f)))
    cl = ('CBO', 'PSO', 'MirrorCBO', 'PolarCBO') if tier == 'quick' else [x for x in dc.BY if x != 'CBS']
    for cls in cl:
        for b, a in (('none', 'all'), ('partial', 'subset')) if tier == 'quick' else (('none', 'all'), ('none', 'subset'), ('partial', 'subset'), ('full', 'all')):
            for it, sv in ((4, 1), (4, 2), (5, 2)) if tier == 'quick' else ((4, 1), (4, 2), (5, 2), (6, 3), (7, 3), (0, 5), (0, 1)):
                out.append(('%s %s %s %d/%d' % (cls, b, a, it, sv), c15_history, (cls, b, a, it, sv)))
    for it, sv in ((4, 1), (4, 2), (5, 2)):
        out.append(('UserParticle %d/%d' % (it, sv), c15_history, ('UserParticle', 'none', 'all', it, sv)))
    for b, a in (('none', 'all'), ('none', 'subset'), ('partial', 'subset'), ('full', 'subset')):
        out.append(('drift %s %s' % (b, a), c15_drift_idx, (b, a)))
    out.append(('init', c15_init, ()))
    out.append(('unknown', c15_unknown, ()))
    return out
