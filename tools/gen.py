#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json (source of truth for both)"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.setrecursionlimit(100000)
P = []


def p(id, title, statement, over, text, why, files, mech, na=None):
    assert len(title) <= 80, title
    for f in files.split() + [x for _, b in mech for x in b.split()[:1]]:
        assert os.path.exists('/repo/cbx/' + f), f
    P.append(dict(d=dict(id=id, title=title, statement=statement, quantifier=dict(over=over.split(), text=text), why_tests_cant=why,
                         anchors=dict(files=['cbx/' + f for f in files.split()], mechanism=[dict(name=a, where='cbx/' + b) for a, b in mech])), na=na))


DYN = 'dynamics/pdyn.py dynamics/cbo.py dynamics/cbo_memory.py dynamics/pso.py dynamics/adamcbo.py dynamics/cbs.py dynamics/driftconstrainedcbo.py dynamics/hypersurfacecbo.py dynamics/mirrorcbo.py dynamics/polarcbo.py dynamics/regcombinationcbo.py'
p('C01', 'Runs of one dynamic are independent of each other',
  'A dynamic with M runs behaves as M separate ensembles: in every step the new positions, energies, best values and counters of one run depend only on the state, the scalar parameters and the random draws of that run. No random draw is shared by two runs or by two particles of a run.',
  'configurations histories inputs', 'all ensemble sizes M, N, dimensions, objectives, active subsets, batch configurations, noise models and corrections of every dynamic',
  'Tests run a few seeds with tiny M and compare shapes; cross-talk through a wrong axis changes no shape and shows only in numbers nobody compares.',
  DYN + ' noise.py correction.py', [('consensus reduction per run', 'dynamics/pdyn.py compute_consensus_default'), ('noise draws', 'noise.py'), ('index of updated particles', 'dynamics/pdyn.py set_batch_idx')])
p('C02', 'Terminated runs stay frozen',
  'Once a run has terminated while other runs continue, further steps leave its positions, auxiliary particle states, energies, best particle, best energy and evaluation count unchanged. The other runs continue to be updated.',
  'histories configurations', 'every step of every dynamic with any strict subset of active runs, any batching, noise and correction, with and without the default post processing',
  'A run terminating earlier than another one needs particular energies; tests use criteria that stop all runs together.',
  DYN, [('active runs', 'dynamics/pdyn.py terminate'), ('inner steps of all dynamics', 'dynamics/')])
p('C03', 'Evaluation counters are exact for every run',
  'For every run the reported number of objective evaluations equals the number of points of that run on which the objective was evaluated, counting construction, each step and the evaluations of drift corrections. Terminated runs are not charged.',
  'histories configurations', 'construction and an arbitrary step of every dynamic, all batch sizes, active subsets and corrections',
  'Tests check one total after a fixed number of steps with all runs active; counters in subsets of active runs, corrections and memory dynamics are not observed.',
  DYN + ' correction.py utils/objective_handling.py', [('eval_f', 'dynamics/pdyn.py eval_f'), ('correction evaluations', 'correction.py'), ('num_f_eval at construction', 'dynamics/pdyn.py init_particles')])
p('C05', 'Best particle and best energy are a consistent best-so-far pair',
  'After every step the best energy of each run is the objective value of its best particle, it never increases, and it is not larger than any objective value of a particle evaluated for that run in the step. Optimisation returns exactly this best particle.',
  'histories inputs configurations', 'an arbitrary step from any state satisfying the invariant, every dynamic, objective, batch and active subset',
  'Tests inspect the final best energy of short runs; pairing errors appear only when the improving particle is not in the batch or the run is not at the index of its position.',
  DYN, [('update_best_cur_particle/update_best_particle', 'dynamics/pdyn.py'), ('memory best', 'dynamics/cbo_memory.py dynamics/pso.py')])
p('C06', 'The consensus point is the Gibbs-weighted mean',
  'The consensus point of a run is the mean of the positions in its batch weighted by exp(-alpha f) with the alpha of that run; polarised dynamics additionally weight by the kernel between the particle and the batch. The energies stored for the evaluated particles are the objective values at the evaluated positions.',
  'inputs configurations', 'all positions, objectives, alpha per run, batches, kernels, multi dimensional domains',
  'Tests compare with a loop implementation for one shape and scalar alpha.',
  'dynamics/pdyn.py dynamics/polarcbo.py dynamics/cbo_memory.py dynamics/pso.py', [('compute_consensus', 'dynamics/pdyn.py'), ('compute_polar_consensus', 'dynamics/polarcbo.py')])
p('C08', 'Each dynamic performs its documented particle update',
  'In every step the particles selected for the update move exactly by the documented scheme of the dynamic (drift towards the consensus, correction factor, memory drift, momentum, tangential projection, mirror step, constraint step) with the documented powers of the time step. Particles of active runs that are not selected do not move.',
  'inputs configurations histories', 'every dynamic, batch mode, correction, kernel, domain rank, all parameter values',
  'Tests check that runs complete and shapes fit; a wrong sign, factor or index keeps that.',
  DYN + ' correction.py', [('inner_step of every dynamic', 'dynamics/'), ('corrections', 'correction.py')])
p('C09', 'Noise models produce the documented noise vector',
  'The stochastic part of a step is the documented noise of the chosen model: isotropic noise scales a standard normal vector by the norm of the drift of the particle, anisotropic noise by its components, constant noise by one, each with the square root of the time step; covariance noise applies the square root of the weighted covariance of the run. The exponential sampler returns symmetric exponential draws, one independent draw per entry.',
  'inputs configurations', 'all dynamics and noise models, all drifts, batch modes and active subsets',
  'Noise is random, so tests only compare shapes; a wrong scaling or covariance is invisible to them.',
  'noise.py dynamics/pdyn.py dynamics/polarcbo.py dynamics/cbs.py', [('noise classes', 'noise.py'), ('update_covariance', 'dynamics/pdyn.py dynamics/polarcbo.py')])
p('C11', 'Particle memories hold the best visited position of each particle',
  'In memory based dynamics the memory of every updated particle after a step is the better of its old memory and its new position, and the stored memory energy is always the objective value of the memory position. Memory of particles that are not updated is unchanged, and memory never shares storage with the particles.',
  'histories inputs configurations', 'arbitrary step of the memory based dynamics, all batches, active subsets and objectives',
  'Tests never compare memory energies with the objective at the memory positions over a history.',
  'dynamics/cbo_memory.py dynamics/pso.py', [('memory update', 'dynamics/cbo_memory.py inner_step'), ('memory update', 'dynamics/pso.py inner_step')])

p('C04', 'The evaluation budget max_eval is never exceeded by a step',
  'With the max_eval criterion, a run that was within its budget and is not stopped by the criterion finishes the next step with an evaluation count of at most max_eval, and the criterion stops a run only if one more step would exceed the budget. This includes the evaluations a drift correction makes, and the number of particles actually updated in a batch.',
  'configurations histories inputs', 'all dynamics, batch sizes, corrections, active subsets, budgets and counter values',
  'Tests run one budget with one batch size; whether the bound is exact depends on the evaluations per step of every dynamic and correction.',
  'utils/termination.py dynamics/pdyn.py dynamics/cbo.py dynamics/cbo_memory.py dynamics/pso.py correction.py', [('max_eval_term', 'utils/termination.py'), ('eval_f', 'dynamics/pdyn.py eval_f')])
p('C13', 'Termination criteria stop exactly the runs they describe',
  'Each termination criterion returns one flag per run which is true exactly under its documented condition for that run: iteration or time limit reached, best energy below energy_tol, averaged movement of the particles below diff_tol, consensus energies stagnating within the patience window. After the check exactly the runs for which no criterion fired are active, and the dynamic terminates iff no run is left. Names, spellings and defaults of criteria select the documented criterion.',
  'inputs histories configurations', 'all states, thresholds, run subsets, combinations of criteria and dynamics',
  'A wrong axis, a strict instead of a non strict comparison or a wrong denominator changes only for which iteration a run stops.',
  'utils/termination.py dynamics/pdyn.py', [('criteria', 'utils/termination.py'), ('terminate', 'dynamics/pdyn.py terminate')])
p('C14', 'Optimisation loop and step bookkeeping follow the protocol',
  'Every step increases the iteration count by one and the time by dt, leaves scalar parameters alone and calls the user post processing exactly once. optimize() checks termination before every step, performs exactly one scheduler update after every step, performs no step after termination, and returns the best particle. reset() restarts iteration count, time and the tracked history.',
  'histories configurations', 'every dynamic with any batching, noise and correction, any number of loop iterations, given, default or no scheduler',
  'Tests run the loop for few iterations and check that it ends; an additional or missing check, update or post processing call does not show in the outcome they inspect.',
  DYN, [('step', 'dynamics/pdyn.py step'), ('optimize', 'dynamics/pdyn.py optimize'), ('reset', 'dynamics/pdyn.py reset')])
p('C15', 'The tracked history records snapshots at the configured cadence',
  'With tracking enabled, every save_int-th iteration adds exactly one entry for every tracked quantity, holding the value the dynamic has at that moment, and other iterations add none. Recorded entries are snapshots which no later step changes. The initial positions are recorded before the first step, and drift entries come with the indices of the particles they belong to. With save_consensus_eval_points the recorded points are a copy of the positions at which the objective was last evaluated for the consensus.',
  'histories configurations', 'every dynamic and tracked quantity, save interval, iteration count, batching and active subset',
  'Tests check the length of one recorded list; aliasing of the recorded arrays and per run indices appear only over several steps with subsets of runs.',
  'dynamics/pdyn.py utils/history.py dynamics/mirrorcbo.py', [('track', 'dynamics/pdyn.py track'), ('track functions', 'utils/history.py')])
p('C20', 'Parameter schedulers apply their rule within their bounds',
  'A multiply scheduler sets its parameter to the old value times the factor, never beyond its maximum; the effective sample size scheduler sets alpha of every run to the solution of the sample size equation of that run, whatever the other runs are, bounded by its maximum. Schedulers change only the parameter they are responsible for, apply once per update, and combined schedulers apply in order.',
  'inputs configurations histories', 'all parameter values per run, factors, maxima, energies, and combinations of schedulers',
  'Tests apply a scheduler a few times to scalar parameters; bounds, per run parameters and side effects on other attributes are not observed.',
  'scheduler.py dynamics/cbo.py dynamics/pdyn.py', [('multiply', 'scheduler.py multiply'), ('effective_sample_size', 'scheduler.py effective_sample_size'), ('bisection', 'scheduler.py bisection_solve')])
p('C21', 'Objectives are promoted to batched functions and evaluations are counted',
  'A user objective of declared input dimension 1D, 2D or 3D is turned into a function on arrays of shape (runs, particles, domain) whose entry for a particle is the user function at that particle, for scalar and multi dimensional domains and any number of leading axes. Its evaluation counter grows by exactly the number of points evaluated. Unsupported declarations are rejected.',
  'inputs configurations', 'all objectives, declared dimensions, leading axes, domain ranks and extents',
  'Tests use one shape per declared dimension; a wrong reshape keeps the shape and permutes values.',
  'utils/objective_handling.py dynamics/pdyn.py', [('_promote_objective', 'utils/objective_handling.py'), ('cbx_objective', 'utils/objective_handling.py')])
p('C22', 'Benchmark objectives compute their documented functions',
  'Every benchmark objective evaluates, at every point of any leading shape and dimension, the documented formula with its parameters, returns one value per point, and takes its documented optimal value at every minimiser it lists. Objectives which are negative logarithms of densities stay finite far away from the modes, where the densities themselves are not representable.',
  'inputs configurations', 'all points, leading axes, dimensions and parameter values of every benchmark objective',
  'Tests evaluate a few objectives at the minimiser, where many wrong terms vanish.',
  'objectives.py', [('objective classes', 'objectives.py'), ('minima', 'objectives.py')])
p('C28', 'Constraints are consistent with their derivatives and solves',
  'For every constraint the gradient is the derivative of the value, the Hessian the derivative of the gradient, the squared variants those of the squared constraint, and the linear solves used by the drift constrained dynamics return the solution of the documented system. A combination of constraints returns the sum over its members, also for no member.',
  'inputs configurations', 'all points, constraint parameters and dimensions, one or several constraints',
  'Tests compare with finite differences at few points for a few constraints.',
  'constraints.py dynamics/driftconstrainedcbo.py', [('constraint classes', 'constraints.py'), ('solve_Id_hessian_squared', 'constraints.py'), ('MultiConstraint', 'constraints.py')])
p('C29', 'Regularised objectives add the penalty the scheduler prescribes',
  'A regularised objective equals the objective plus lambda times the p-th power of the regulariser at every point, with the regulariser the distance or constraint value selected by name, reports the evaluations of the objective it wraps, and the regularisation scheduler updates lambda and theta of each run by its documented rule within the documented bound.',
  'inputs configurations histories', 'all points, regularisers, p, lambda per run, factors and bounds, both averaging rules',
  'Tests evaluate one regulariser with one lambda; the rule for several runs and over several updates is not observed.',
  'regularizers.py', [('regularize_objective', 'regularizers.py'), ('regularization_paramter_scheduler', 'regularizers.py')])
p('C30', 'Mirror maps are consistent: gradient, inverse and projection agree',
  'For every mirror map the gradient is the derivative of the potential, grad_conj inverts the gradient on the domain (or is the documented projection onto the constraint set), the Hessian is the derivative of the gradient, projections are idempotent and feasible, the Bregman distance is the documented one, a map turned into a post-processing rule replaces the positions by their image, and no map overwrites its argument.',
  'inputs configurations', 'all points of the domain, dimensions and parameters of every mirror map',
  'Tests check one or two maps at random points; sign errors outside the sampled region or in the boundary case are not reached.',
  'dynamics/mirrorcbo.py', [('mirror map classes', 'dynamics/mirrorcbo.py')])

p('C07', 'Gibbs weights are stabilised against overflow and underflow',
  'All exponential weights that depend on objective values are formed relative to the best value of the run, so that for arbitrarily large or small energies and any alpha no exponential overflows, the normaliser never underflows to zero, and consensus points, weighted covariances, effective sample sizes and kernel weighted means stay finite. A step from a state in which all particles of a run coincide has finite positions (no 0/0).',
  'inputs configurations', 'all objective values however far from zero, all alpha per run, all dynamics, batches, noise models and schedulers computing weights',
  'Tests use moderate energies, for which an unstabilised exponential gives the same numbers.',
  'dynamics/pdyn.py dynamics/polarcbo.py dynamics/cbs.py scheduler.py regularizers.py', [('compute_consensus', 'dynamics/pdyn.py'), ('polar consensus', 'dynamics/polarcbo.py'), ('effective sample size', 'scheduler.py')])
p('C16', 'Objects supplied by the user are not modified or aliased',
  'Arrays, dictionaries, lists and index sequences the user passes in (initial positions, parameters per run, termination criteria, noise or correction arguments, objective inputs, samples) keep their contents through construction, steps, termination checks, scheduling, reset and the library functions; particle positions never share storage with the supplied initial positions.',
  'histories inputs configurations', 'all constructors with every kind of user object, all dynamics, batches, subsets, and every utility taking arrays',
  'Aliasing shows only when the caller reuses an object after several steps; tests build fresh arguments for every call.',
  DYN + ' noise.py correction.py utils/particle_init.py utils/resampling.py constraints.py objectives.py', [('constructor', 'dynamics/pdyn.py __init__'), ('init_particles', 'dynamics/pdyn.py'), ('default termination', 'dynamics/pdyn.py')])
p('C17', 'Seeded dynamics draw all randomness from their own generator',
  'A dynamic given a seed draws initial positions, batches and noise only from generators derived from this seed, so that equal seeds give equal runs whatever other code does with global random state; it never reseeds the global generator. A sampler given by the user provides all noise.',
  'histories configurations', 'all dynamics, noise models, corrections, batch modes; construction and any step',
  'Reproducibility tests compare two runs without interleaved global draws, and for few configurations.',
  DYN + ' noise.py utils/particle_init.py', [('sampler and generator', 'dynamics/pdyn.py'), ('init_particles', 'utils/particle_init.py'), ('batch generator', 'dynamics/pdyn.py')])
p('C18', 'Mini batches are distinct, cover all particles and are fresh per run',
  'A batch of a run holds min(batch_size, N) distinct particles. Within one pass over a permutation every particle is used at most once, successive batches of a pass are disjoint, and each pass of each run uses a fresh permutation; with the concat variant the stream of indices continues across passes without losing any. Only active runs are batched, and with partial updates exactly the batch moves.',
  'histories configurations inputs', 'all N, batch sizes including those not dividing or exceeding N, any position within a pass, active subsets, partial and full updates',
  'Tests look at the shape of the batch indices; disjointness and coverage are properties of sequences of steps.',
  'dynamics/pdyn.py', [('init_batch_idx', 'dynamics/pdyn.py'), ('set_batch_idx', 'dynamics/pdyn.py'), ('consensus_idx/particle_idx', 'dynamics/pdyn.py')])
p('C19', 'Default post processing keeps positions finite and bounded',
  'With the default post processing, after every step each coordinate of every particle is a number within the documented threshold: NaN is replaced by zero or another bounded number, larger values are clipped to the threshold with their sign, admissible values are unchanged. A dynamic given its own post processing uses that.',
  'inputs configurations', 'all positions including NaN and infinite ones, all thresholds, dynamics and active subsets',
  'Tests never let positions diverge.',
  'dynamics/pdyn.py', [('post_process_default', 'dynamics/pdyn.py')])
p('C31', 'Kernels of polarised dynamics agree with their negative logarithm',
  'For every named kernel the negative logarithm used in the consensus is minus the logarithm of the kernel, depends on the pair of points through the documented function of their distance and kappa, is zero for equal points (also if all points of a run coincide), never negative and symmetric in the two points; the kernel enters with the documented factor (alpha of the run, or one).',
  'inputs configurations', 'all pairs of points, kappa, dimensions, alpha per run, active subsets, both factor modes',
  'Kernel values are compared at no points by tests; a kernel and a negative logarithm that disagree leave shapes intact.',
  'dynamics/polarcbo.py', [('kernel classes', 'dynamics/polarcbo.py'), ('kernel_factor', 'dynamics/polarcbo.py')])

p('C10', 'The initial state has the documented shape and contents',
  'A dynamic created from positions of rank one, two or three, or from M, N and d, has particles of shape (M, N, d) holding the given positions (or independent uniform draws from [-1, 1] for every run, particle and coordinate). Counters and time are zero apart from the evaluations counted at construction, all runs are active, the best energy is infinite before the first step, alpha has one entry per run with the given value. init_particles returns draws of the documented distribution in the documented box, and an objective whose output does not have one value per particle is rejected.',
  'inputs configurations', 'all M, N, d, ranks of x, alpha given as number or per run, every dynamic and initialisation mode',
  'Tests construct a few sizes and check shapes of the particles; the remaining parts of the state and the distribution of initial values are not looked at.',
  DYN + ' utils/particle_init.py', [('init_particles', 'dynamics/pdyn.py'), ('init_alpha', 'dynamics/pdyn.py'), ('init_particles utility', 'utils/particle_init.py')])
p('C12', 'Constrained dynamics keep particles feasible and mirror pairs consistent',
  'After every step of hypersurface dynamics the updated particles satisfy the constraint of a plane or sphere (signed distance zero), and the drift and noise act in the tangent space. For mirror dynamics primal positions are the conjugate gradient of the dual variables, lie in the domain of the mirror map, and the dual variables are initialised by the gradient of the mirror map and never share storage with the primal ones. Signed distances, normals, projections and Laplacians are those of the surface.',
  'inputs configurations histories', 'all particle positions, planes, spheres, mirror maps, batches and active subsets',
  'Tests check the distance for one surface to a tolerance after some steps, which a damped violation passes.',
  'dynamics/hypersurfacecbo.py dynamics/mirrorcbo.py', [('signed distances', 'dynamics/hypersurfacecbo.py'), ('mirror step', 'dynamics/mirrorcbo.py')])
p('C23', 'Options select the documented behaviour and wrong options are rejected',
  'Every documented spelling of an option (noise, correction, kernel, mirror map, sampler, post processing, termination, scheduler names and aliases, numbers given per run) gives the same dynamic; a callable given by the user is the one which is applied. Parameter values are used as given, zero included. Unknown names, wrong types and misspelt keyword arguments raise an error instead of falling back to a default. With verbosity 0 nothing is printed.',
  'configurations', 'all named options, their aliases, callables, boundary parameter values and dynamics',
  'Tests construct dynamics with some names and check that nothing is raised; which behaviour was selected is not compared.',
  DYN + ' noise.py correction.py scheduler.py', [('select_noise', 'noise.py get_noise'), ('select_correction', 'correction.py get_correction'), ('select_kernel', 'dynamics/polarcbo.py')])
p('C24', 'Success criteria evaluate runs by their definitions',
  'The distance criterion accepts exactly the runs whose best particle is within the tolerance of the minimiser in the given norm; the value criterion exactly the runs whose best energy is below the threshold. The evaluation reports indices, number and rate of successful runs as the conjunction documented, for any number of runs, and does not modify the dynamic.',
  'inputs configurations', 'all states of a dynamic, tolerances, norms, numbers of runs and lists of criteria',
  'Tests evaluate one finished run.',
  'utils/success.py', [('criteria', 'utils/success.py'), ('evaluation', 'utils/success.py')])
p('C27', 'Resampling perturbs exactly the selected active runs',
  'A resampling selects a run exactly if its condition (ensemble, loss, stagnation of the consensus) holds for this run; selected active runs get independent normal perturbations of every coordinate of every particle with standard deviation sigma_indep*sqrt(dt), all other runs keep their particles, and the counter of resamplings of selected runs increases by one. The best consensus is tracked per run with its evaluations counted.',
  'histories configurations inputs', 'all active subsets, histories of consensus points and energies, patience values, selected subsets and dynamics',
  'Tests trigger a resampling of all runs once; subsets and interplay with terminated runs are not exercised.',
  'utils/resampling.py', [('resampling', 'utils/resampling.py'), ('apply_resampling', 'utils/resampling.py')])

p('C26', 'Torch dynamics and functions compute the documented step',
  'The torch version of a dynamic performs the same step as the numpy version: Gibbs consensus with stabilised weights, noise with one independent standard normal draw per entry, evaluation counts, best particles, frozen terminated runs. The torch post processing returns bounded numbers and leaves admissible positions unchanged, the sample size scheduler stores the solution of the equation per run, and parameter vectors of networks are cut into consecutive blocks, one per parameter, in the order in which they were flattened, so that each particle is evaluated with its own parameters.',
  'inputs configurations histories', 'all shapes, energies, alpha per run, active subsets, batches, layouts of model parameters',
  'The tests run one torch dynamic for a few steps and check shapes.',
  'utils/torch_utils.py dynamics/pdyn.py', [('torch consensus', 'utils/torch_utils.py'), ('model evaluation', 'utils/torch_utils.py eval_model')])

p('C25', 'Plots show the chosen run, dimensions and iteration of a dynamic',
  'A plot of a dynamic hands to the axes the positions of all particles of the chosen run in the chosen dimensions (for one dimensional domains with the objective value or zero as second coordinate), the consensus point of this run and minus its drift attached to the positions it was computed from: initially the current positions, on update those the last step started from, and for a recorded history those of the requested iteration, with a matching title and one frame every freq iterations. Contour and line plots show the objective on the regular grid between the given limits, with all dimensions which are not plotted set to zero. Drawing changes no attribute, record or counter of the dynamic. A history without positions is rejected, and missing consensus or drift records only drop those parts. (All runs active.)',
  'inputs configurations histories', 'all positions, consensus points, drifts and records, any run index and number of runs, any selection of two dimensions, all limits',
  'Tests create figures and check at most that no exception is raised; what is drawn is not compared.',
  'plotting.py', [('PlotDynamic', 'plotting.py'), ('PlotDynamicHistory', 'plotting.py'), ('contour_2D', 'plotting.py')])

exec(open(os.path.join(V, 'tools', 'tail.py')).read())
