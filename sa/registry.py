"""Registry of checks: property id -> tasks (analysis functions with configurations)."""
from . import dynchecks as dc

ASSUME = [
    'the models of numpy/scipy operators used by the abstract interpreter (sa/nplib.py) agree with the libraries',
    'real arithmetic: rounding is not modelled',
    'objective, post_process and user callbacks are uninterpreted pure functions unless stated otherwise',
    'equalities that the normal form does not settle are decided by random interpretation of the terms (one-sided error on the accepting side)',
]

ENGINE = ('Abstract interpretation of the current source over a value-numbering domain (symbolic extents M,N,d,batch,active; guarded joins at '
          'branches, no path enumeration, no execution): one step from an arbitrary state (every attribute that a step changes is generalised to an '
          'unknown array, active runs are an arbitrary subset). The resulting terms are compared with reference terms by normal form, '
          'otherwise by random interpretation of both terms. ')


def T(fn, ds, *extra):
    return [(dc.label(d), fn, (d,) + extra) for d in ds]


def base(tier):
    return dc.configs(tier)


def subset_only(ds):
    return [d for d in ds if d.get('active') == 'subset']


CHECKS = {}


def check(pid, tasks, explanation, technique, note, assumptions=(), engine=True):
    CHECKS[pid] = dict(tasks=tasks, explanation=(ENGINE if engine else '') + explanation, technique=technique, level_note=note,
                       assumptions=ASSUME + list(assumptions))


NOTE = ('Sound up to the library models and real arithmetic; accepting side of non-normal-form equalities is probabilistic (random interpretation); '
        'obligations the analysis cannot decide are listed as undecided in the evidence and never alarm.')
AI = 'abstract interpretation over value-numbered terms, '

check('C01', lambda t: T(dc.c01_independence, base(t) + dc.all_variants(t) + dc.user_configs(t, False)) + rc.separate_tasks(),
      'For every per-run observable, entry m of the next state must depend only on entry m of the previous state (dependence closure, else perturbation of the other runs), '
      'and the map from (run, particle, coordinate) to random draws must be injective.',
      AI + 'non-interference (dependence closure) and draw-index injectivity', NOTE)

check('C02', lambda t: T(dc.c02_frozen, subset_only(base(t) + dc.all_variants(t) + dc.user_configs(t, False))) + rc.indep_tasks() + [
    (dc.label(d) + ' default post_process', dc.c02_default, (d,)) for d in subset_only(base(t))],
      'For runs outside the active subset every per-run observable after the step equals its value before the step.',
      AI + 'frame condition for inactive runs', NOTE)

check('C03', lambda t: T(dc.c03_counts, base(t) + dc.all_variants(t) + dc.user_configs(t, False)) + [
    (dc.label(d) + ' init', dc.c03_init, (d, c)) for d in dc.init_configs() for c in (True, False)],
      'The increase of the evaluation counter of each run in a step equals the number of points of that run passed to the objective in that step; likewise during construction.',
      AI + 'effect counting of objective call events', NOTE)

check('C05', lambda t: T(dc.c05_best, base(t) + dc.all_variants(t) + dc.user_configs(t)) + T(dc.c05_points, base(t) + dc.correction_variants(t) + dc.user_configs(t)) + [
    (dc.label(d) + ' ' + n, f, (d,)) for n, f in (('optimize', dc.c05_reset), ('initial', dc.c05_initial)) for d in [x for x in base(t) + dc.user_configs(t) if x['active'] == 'all' and x['batch'] == 'none']],
      'Inductive invariant: best energy is the objective value of the best particle, never increases, equals the minimum of the former best and the stored energies, '
      'is at most every value evaluated on particles in the step; optimize returns the best particle.',
      AI + 'inductive invariant over one step', NOTE)

check('C06', lambda t: T(dc.c06_consensus, base(t) + dc.user_configs(t, False) + dc.torch_variants(t) + dc.kernel_variants(t) + dc.multidim_variants(t)) + nc.c06_functions(),
      'The consensus equals the exp(-alpha f) weighted mean of the (batch) positions of its run with that run\'s alpha (times the kernel for polarised dynamics); '
      'energies stored for evaluated particles are the objective values at the evaluated positions.',
      AI + 'equality with the reference formula', NOTE)

check('C08', lambda t: T(dc.c08_update, base(t) + dc.noise_variants(t) + dc.eps_variants(t) + dc.user_configs(t, False) + dc.torch_variants(t) + dc.correction_variants(t) + dc.kernel_variants(t) + dc.multidim_variants(t)) + rc.indep_tasks(),
      'New positions of the updated particles equal the documented update of each dynamic; particles outside the batch do not move.',
      AI + 'equality with the reference formula', NOTE)

check('C09', lambda t: T(dc.c08_update, dc.uniq(dc.noise_variants(t) + [dc.mk('PolarCBO', 'full', 'subset', noise='covariance')] + base(t) + dc.torch_variants(t) + dc.multidim_variants(t) + [
    dc.mk(c, 'none', 'subset', ddim=2, noise=n) for c in dc.MULTIDIM for n in ('anisotropic', 'constant')])) + [('exponential sampler', to.c09_sampler, ())],
      'The stochastic part of the update is the documented noise vector built from standard normal draws of this particle.',
      AI + 'equality with the reference formula', NOTE)

check('C11', lambda t: T(dc.c11_memory, [d for d in base(t) + dc.multidim_variants(t) + dc.correction_variants(t) if dc.short(d['cls']) in dc.MEMORY]) + [
    (dc.label(d) + ' init', dc.c11_init, (d,)) for d in base(t) if dc.short(d['cls']) in dc.MEMORY and d['active'] == 'all' and d['batch'] == 'none'],
      'Memory position/energy are the better of the old memory and the new particle; the pair stays consistent with the objective; memory does not alias the particles.',
      AI + 'inductive invariant and points-to', NOTE)

from . import termchecks as tc, histchecks as hc, objchecks as oc, utilchecks as uc, libchecks as lc, schedchecks as sc   # noqa: E402

FUN = ('Abstract interpretation of library functions on symbolic arrays (value-numbering domain, no execution); result terms are compared with the '
       'documented formulas by normal form, otherwise by random interpretation of both terms. ')


def fcheck(pid, tasks, explanation, technique, note=NOTE):
    check(pid, tasks, FUN + explanation, technique, note, engine=False)


check('C04', tc.c04_tasks,
      'With the criterion applied before a step: if it does not fire for a run, the counter of that run after the step does not exceed max_eval; if it fires, one more step would.',
      AI + 'comparison of the criterion term with the counter after the step', NOTE)
check('C13', tc.c13_tasks,
      'Every criterion term equals its documented condition per run; terminate() keeps exactly the runs no criterion fires for and returns true iff none is left; lookup table of criteria.',
      AI + 'equality with the reference condition', NOTE)
check('C14', tc.c14_tasks,
      'A step adds 1 to it and dt to t, leaves parameters, calls post processing once on the dynamic; optimize follows the protocol terminate (step update)*; reset restarts counters and history.',
      AI + 'effect analysis and typestate of the optimisation loop', NOTE)
check('C15', hc.c15_tasks,
      'Number and value of history entries added by a step at given iteration counts and save intervals; recorded arrays share no buffer that later steps write.',
      AI + 'effects on the history lists and points-to', NOTE)
fcheck('C20', sc.c20_tasks, 'Scheduler updates against their formulas for symbolic parameter arrays; bounds; only the named attribute changes.', AI + 'equality with the reference formula, effects')
fcheck('C21', uc.c21_tasks, 'Shape contract, pointwise value and evaluation count of the three objective wrappers over leading axes and multi dimensional domains.', AI + 'equality with the reference formula, effect counting')
fcheck('C22', oc.tasks, 'Objective terms over (..., d) arrays against the documented formulas and values at the listed minimisers.', AI + 'equality with the reference formula')
fcheck('C28', lc.c28_tasks, 'Constraint values, gradients, Hessians, squared variants, and linear solves (by residual) against derivatives of the value term.', AI + 'equality with derived reference formulas')
fcheck('C29', sc.c29_tasks, 'Regularised objective, its p-norm, and the regularisation scheduler against their formulas.', AI + 'equality with the reference formula, effects')
fcheck('C30', lc.c30_tasks, 'Mirror maps: gradient = derivative of the potential, inverse relations, Hessian, projections feasible and idempotent, Bregman distance, inputs not overwritten.', AI + 'equality with derived reference formulas, points-to')

from . import batchchecks as bc, inputchecks as ic, numchecks as nc   # noqa: E402

check('C18', bc.c18_tasks,
      'Batch selection of an arbitrary step: size, distinctness, coverage of one pass, fresh permutation per run and per pass, continuation of the stream, active runs, seed and the set of particles that move.',
      AI + 'set properties of index terms', NOTE)
check('C16', ic.c16_tasks,
      'No store through an alias of a user supplied object in constructors, steps, loops, wrappers and utilities; no retained alias which later steps write.',
      AI + 'points-to and effect analysis', NOTE)
check('C17', ic.c17_tasks,
      'Every random draw of construction, step and noise comes from the generator or sampler of this dynamic; no draw from or reseeding of a global generator; the generator is seeded by the given seed.',
      AI + 'effect analysis of random draws', NOTE)
check('C07', nc.c07_tasks,
      'Every exponential evaluated for weights has an argument bounded by zero whose maximum is zero (so the normaliser is at least one), for arbitrarily large energies and alpha.',
      AI + 'bounds of exponent terms', NOTE)
check('C19', nc.c19_tasks,
      'After the default post processing positions contain no NaN/inf and stay in the documented bounds; finite values pass unchanged.',
      AI + 'value properties of the state after the step', NOTE)
fcheck('C31', nc.c31_tasks, 'Kernels against documented formulas, symmetry, derivatives and dimension handling.', AI + 'equality with the reference formula')

from . import feaschecks as fc, resampchecks as rc, optchecks as po   # noqa: E402

check('C10', po.c10_tasks,
      'State created by the constructors: shape of particles, origin of the initial values, counters, active runs, best values, parameters per run; rejection of wrong objective output.',
      AI + 'shape and value properties of the constructed state', NOTE)
check('C12', fc.c12_tasks,
      'After a step the updated particles of constrained dynamics lie on the hypersurface / in the range of the mirror map and equal the inverse mirror of the dual variable; signed distance functions against derivatives.',
      AI + 'equality with the reference formula, points-to', NOTE)
check('C23', po.c23_tasks,
      'Option names, aliases, callables and parameter values select the documented behaviour: same step as the canonical spelling, user callables applied, unknown options rejected.',
      AI + 'equality of the steps of equivalent configurations', NOTE)
fcheck('C24', po.c24_tasks, 'Success criteria and their evaluation against their definitions per run; the inspected dynamic is not changed.',
       AI + 'equality with the reference condition, effects')
check('C27', rc.c27_tasks,
      'Resampling moves exactly the active selected runs by sigma_indep*sqrt(dt)*normal; ensemble, loss and stagnation criteria select the documented runs; best consensus tracking.',
      AI + 'effects and equality with the reference formula', NOTE)

from . import torchchecks as to   # noqa: E402

check('C26', to.c26_tasks,
      'Torch versions of consensus, norm, samplers, post processing, sample size scheduler and model evaluation against the documented formulas; the step of the torch dynamics against the same references as the numpy dynamics.',
      AI + 'equality with the reference formula, effects', NOTE)

from . import plotchecks as pc   # noqa: E402

check('C25', pc.c25_tasks,
      'Arguments of every call on the axes (scatter, set_offsets, quiver, set_UVC, contourf, plot, limits, titles) against the positions, consensus points, drift and objective '
      'of the chosen run, dimensions and iteration; frame condition for every attribute and record of the dynamic.',
      AI + 'effects on the axes, equality with the reference, frame condition', NOTE)
