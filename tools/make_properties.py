"""Writes /verif/properties.jsonl (kept as code so that the wording is reviewable)."""
import json, os

P = []


def prop(id, title, statement, over, text, why, files, mechanism, state=None, observe=None):
    assert len(title) <= 80, (id, len(title))
    anchors = {'files': files,
               'mechanism': [{'name': n, 'where': w} for n, w in mechanism]}
    if state:
        anchors['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in state]
    if observe:
        anchors['observe_at'] = observe
    anchors['hook_needed'] = None
    P.append({'id': id, 'title': title, 'statement': statement,
              'quantifier': {'over': over, 'text': text},
              'why_tests_cant': why, 'anchors': anchors})


prop('C01', 'Buffered batches form one stream fixed by the seed, whatever the buffering',
     'For a given seed, variety, moduli sampler and batch sizes, the k-th batch drawn from a batch sampler is '
     'always the same, whatever the buffer size, however many refills have happened, and however draws interleave '
     'with other samplers and other uses of the same variety. No batch is ever delivered twice, an explicit refill '
     'only skips batches ahead, and every batch has the requested number of moduli and of points per modulus, with '
     'each point lying on the variety for the modulus at the same position and carrying the matching weight.',
     ['histories', 'configurations', 'inputs'],
     'every interleaving of draws and refills over any number of samplers sharing a variety, every buffer size, batch size and seed',
     'The suite never constructs a batch sampler. Off-by-one errors at the refill boundary and state shared between samplers show only for particular histories of draws.',
     ['cyjax/ml.py', 'cyjax/util.py', 'cyjax/variety.py'],
     [('refilled list of pre-drawn batches with a read index', 'cyjax/ml.py BatchSampler.new_buffer, __next__'),
      ('key sequence advanced once per batch', 'cyjax/util.py PRNGSequence.__next__')],
     [('buffer, index, key', 'pre-drawn batches, next batch to hand out, position in the random stream', 'BatchSampler')],
     ['next(batch_sampler)'])

prop('C02', 'The batch stream survives failed and interrupted refills',
     'If drawing a batch fails or is interrupted at any point (sampling error, device transfer error, interrupt, '
     'out of memory), the sampler stays usable: as soon as faults stop, the very next draw succeeds. The batches '
     'delivered are an in-order subsequence of the fault-free stream for that seed, with no repeats and with at '
     'most one batch skipped per fault.',
     ['fault_sequences', 'histories'],
     'every sequence of faults at any executed line of the sampler or in the sampling and transfer it calls, over any history of draws and buffer size',
     'A test would need to place an exception at each point of the refill; the suite has no fault injection and does not test the sampler.',
     ['cyjax/ml.py', 'cyjax/util.py'],
     [('buffer refill and index update order', 'cyjax/ml.py BatchSampler.new_buffer, __next__'),
      ('key advanced before use', 'cyjax/util.py PRNGSequence.__next__')],
     [('buffer, index, key', 'must stay mutually consistent when a refill stops half way', 'BatchSampler')],
     ['next(batch_sampler) after a fault'])

prop('C03', 'Every random draw gives the requested number of valid weighted points',
     'Sampling a variety returns exactly the requested number of points for every count, each a finite point '
     'satisfying the defining equation for the given moduli to rounding accuracy, whatever the random number '
     'generator delivers, including draws with zero, tied or very unequal components. Affine output is the same '
     'points in the chart where every coordinate has modulus at most one, and the weights are finite, positive and '
     'equal to the ratio of holomorphic to Fubini-Study volume at that point. All output options agree on the same '
     'points for the same key.',
     ['inputs', 'configurations', 'fault_sequences'],
     'every draw of the generator (ordinary and adversarial, except draws whose line is tangent or meets the variety at infinity), every variety, moduli, count and output option',
     'Tests sample a few seeds of one variety; rare draws and unusual counts, degrees and option combinations are not reached.',
     ['cyjax/variety.py', 'cyjax/random.py', 'cyjax/projective.py', 'cyjax/polynomial.py'],
     [('intersection of a random line with the variety', 'cyjax/variety.py _solve_intersect, sample_intersect'),
      ('weights from the induced metric', 'cyjax/variety.py sample_intersect_weights'),
      ('random directions', 'cyjax/random.py complex_sphere')],
     None, ['sample_intersect and compute_vol results'])

prop('C04', 'Monte Carlo integrals equal the weighted mean of exactly the points drawn',
     'The integration routines ask the caller\'s sampler for exactly the requested number of batches of the '
     'requested size, and return the mean over all delivered points of integrand times weight, for scalar and array '
     'valued integrands. When requested, the variance returned is the sample variance of those values divided by '
     'the number of points, component by component. This holds for any points and weights the sampler delivers.',
     ['inputs', 'histories', 'configurations'],
     'every sequence of points and weights a sampler may deliver over all batches, every integrand shape, batch count and batch size',
     'No test calls the integrators with an integrand; only the volume with constant integrand is used, for which several wrong formulas agree.',
     ['cyjax/util.py', 'cyjax/variety.py'],
     [('single-batch estimate', 'cyjax/util.py mc_integrate'),
      ('batched estimate carried through a loop', 'cyjax/util.py mc_integrate_batched')],
     None, ['return values', 'calls received by the sampler'])

prop('C05', 'No two random draws of a computation share randomness',
     'All random keys handed out by a key sequence, or passed to the sampling callbacks during batched integration, '
     'batch sampling, and Donaldson iterations, are pairwise distinct, and none is derived by splitting another '
     'that was itself handed out. In particular moduli and points, different moduli of one batch, and successive '
     'batches never use the same key, while equal seeds always give equal keys.',
     ['histories', 'configurations', 'inputs'],
     'every history of draws over the random streams of a computation, every seed, batch count and size',
     'Reused keys give plausible numbers, so value-based tests pass; detecting reuse needs a record of every key over a whole history.',
     ['cyjax/util.py', 'cyjax/ml.py', 'cyjax/donaldson.py', 'cyjax/variety.py'],
     [('key splitting', 'cyjax/util.py PRNGSequence, mc_integrate_batched'),
      ('one key per modulus', 'cyjax/ml.py BatchSampler sample'),
      ('one key per batch', 'cyjax/donaldson.py donaldson_step')],
     [('current key', 'position in the random stream', 'PRNGSequence, loop carry')],
     ['keys received by user-supplied samplers', 'next(key_sequence)'])

prop('C06', 'Shared objects give correct results under every thread interleaving',
     'Polynomials, varieties, section bases and metrics may be used from several threads at once: whatever the '
     'interleaving, every call on a shared object returns what it returns when it runs alone, and every call '
     'finishes. This includes first uses, when affine forms and other derived data are still being built, and '
     'calls on different objects that share a polynomial.',
     ['schedules', 'inputs'],
     'every interleaving, at line granularity, of calls by 2-4 threads on shared fresh or used objects',
     'The suite is single threaded; lazily filled caches are always filled in a fixed order there.',
     ['cyjax/polynomial.py', 'cyjax/variety.py', 'cyjax/donaldson.py', 'cyjax/util.py'],
     [('affine polynomials built on first use and stored', 'cyjax/polynomial.py HomPoly.affine_poly'),
      ('symbolic form built on demand', 'cyjax/polynomial.py Poly.sympy_poly'),
      ('per-call lazily evaluated graph', 'cyjax/donaldson.py GeometricObjects')],
     [('affine form cache', 'one slot per chart, filled on first use', 'HomPoly')],
     ['return values in each thread'])

prop('C07', 'Polynomial and variety calls leave no trace, even when interrupted',
     'After any history of building, combining, differentiating, converting, restricting to charts and evaluating '
     'polynomials and varieties, with any call failing or being interrupted at any point, every polynomial still '
     'has the value, variables and parameter order that ordinary algebra gives, in homogeneous and in every affine '
     'form, symbolically and numerically, single and batched. No call changes its operands, its input arrays, or '
     'objects returned earlier, and a repeated call gives the same result.',
     ['histories', 'fault_sequences', 'inputs'],
     'every sequence of operations over a pool of shared polynomials and varieties, with exceptions at any executed line',
     'Tests build fresh objects and check one operation each; caches left half built or operands changed in place appear only in longer or interrupted histories.',
     ['cyjax/polynomial.py', 'cyjax/variety.py', 'cyjax/util.py'],
     [('combination of variables and parameters of two operands', 'cyjax/polynomial.py Poly._combine_metadata, _union_indices'),
      ('affine form cache', 'cyjax/polynomial.py HomPoly.affine_poly'),
      ('coefficient/power conversion', 'cyjax/polynomial.py to_coeffs_and_powers, from_coeffs_and_powers'),
      ('solving for a coordinate', 'cyjax/variety.py solve_defining, cyjax/polynomial.py univariate_coefficients')],
     [('affine form cache', 'one slot per chart', 'HomPoly'),
      ('variable and parameter lists', 'shared between related polynomials', 'Poly')],
     ['evaluation results', 'operands and inputs before and after'])

prop('C08', 'Geometric quantities never depend on what was read or assigned before',
     'Every geometric quantity read from the lazily evaluated graph of a point (potential, metric, their '
     'derivatives, Jacobians, curvature, eta) equals the one obtained from a fresh graph with the current inputs. '
     'This holds in every order of reads, after any reassignment of the Hermitian matrix (full or diagonal), '
     'coordinates, chart or moduli, and after reads that failed or were interrupted.',
     ['histories', 'fault_sequences', 'inputs'],
     'every sequence of reads, input reassignments and interrupted reads on a graph, for full and diagonal Hermitian matrices, homogeneous and affine coordinates',
     'Tests read a few quantities of fresh graphs with full matrices; stale values need a reassignment after a particular set of reads.',
     ['cyjax/donaldson.py', 'cyjax/differential.py', 'cyjax/variety.py'],
     [('dependency-tracked cached nodes', 'cyjax/donaldson.py GeometricObjects'),
      ('sections and their derivatives registered as nodes', 'cyjax/donaldson.py GeometricObjects.__init__')],
     [('stored node values', 'results of earlier reads, dropped when an input changes', 'GeometricObjects')],
     ['attribute reads'])

prop('C09', 'Results do not depend on the process they are computed in',
     'The same calls give the same results in every process: variable, index and parameter order of a polynomial, '
     'its evaluation, sampled points, weights, batch streams and section bases do not change with hash '
     'randomisation, a restart, or the order in which objects are created. Polynomials whose variables or '
     'parameters are detected automatically evaluate correctly when arguments are passed in the reported order.',
     ['configurations', 'histories', 'inputs'],
     'every process start (hash seed, creation order) for every expression and seed',
     'The suite runs with one fixed hash seed in one process.',
     ['cyjax/polynomial.py', 'cyjax/variety.py', 'cyjax/donaldson.py', 'cyjax/ml.py'],
     [('ordering of detected symbols', 'cyjax/polynomial.py Poly.from_sympy, from_coeffs_and_powers')],
     None, ['results printed by separate processes'])

prop('C10', 'Donaldson steps ignore degenerate points and recover from bad states',
     'A Donaldson step returns the Hermitian positive-definite matrix given by the weighted average over the points '
     'drawn in all its batches, where points whose weight or coordinates are not finite contribute nothing and '
     'cannot spoil the result. Started from any positive-definite matrix, including one left by corrupted or lost '
     'steps, iterating over the same sufficiently many, comparably weighted points converges, up to scale, to the same matrix.',
     ['fault_sequences', 'inputs', 'histories'],
     'every placement of degenerate points over batches, every number of batches, and every history of perturbed, lost or repeated steps followed by fault-free ones',
     'Tests use ordinary random points, for which no weight is degenerate, and do not iterate from disturbed states.',
     ['cyjax/donaldson.py', 'cyjax/variety.py'],
     [('weights of degenerate points replaced by zero', 'cyjax/donaldson.py AlgebraicMetric.donaldson_step'),
      ('average carried through a batch loop', 'cyjax/donaldson.py AlgebraicMetric.donaldson_step')],
     [('H matrix', 'state of the iteration', 'caller')],
     ['donaldson_step result'])

prop('C11', 'A training run is determined by its seed; time only decides its length',
     'For a fixed seed and configuration, the sequence of losses and validation accuracies recorded by the training '
     'script is the same in every run, up to the length of the shorter one, whatever the clock shows, however slow '
     'steps and disk are, and whatever the process hash seed. The checkpoint written after a given step is also the '
     'same in all runs that reach it.',
     ['schedules', 'configurations', 'histories'],
     'every behaviour of clock, step durations and disk latencies, over seeds and configurations',
     'The training script is not tested at all, and its length depends on the real clock.',
     ['scripts/train.py', 'cyjax/ml.py', 'cyjax/util.py'],
     [('one key sequence for the whole run', 'scripts/train.py main'),
      ('time-limited loop', 'scripts/train.py main')],
     [('key sequence, parameters, optimiser state', 'advance once per step', 'scripts/train.py main')],
     ['losses, validation and checkpoint files'])

prop('C12', 'A crash or disk error never costs the last complete training results',
     'If the training script is killed at any instant, or a disk operation fails at any point, each results file '
     '(recorded losses, validation accuracies, validation moduli, network parameters, final accuracies) that had '
     'been completely written before can be loaded and holds either that complete version or the one being written '
     'at that time. A results file is never found truncated, mixed or missing once it has been written, nor truncated '
     'the first time. The same holds when the run is repeated in a folder that an interrupted run has left.',
     ['crash_points', 'fault_sequences'],
     'a kill at every point between or inside file operations (including partially flushed writes) and an error at every file operation of a run',
     'Crash points and disk faults are not reachable from unit tests, and the script has none.',
     ['scripts/train.py'],
     [('periodic saving', 'scripts/train.py main')],
     [('results files', 'versions on disk', 'output directory')],
     ['output directory after a crash'])

prop('C13', 'Training stops when its time budget has elapsed, whatever the wall clock does',
     'Training performs another step if and only if less than the configured number of minutes has really elapsed '
     'since the loop began. Steps of the system clock forwards or backwards (time synchronisation, daylight saving, '
     'manual changes) neither end training early nor prolong it.',
     ['schedules', 'fault_sequences', 'configurations'],
     'every sequence of step durations, disk latencies and wall clock jumps, for every budget',
     'It depends on clock behaviour that unit tests do not control; the script is untested.',
     ['scripts/train.py'],
     [('time-limited loop', 'scripts/train.py main')],
     [('start time', 'reference for the budget', 'scripts/train.py main')],
     ['number of steps performed'])

prop('C14', 'The files of a finished run describe the final trained network',
     'When the training script finishes normally, the saved losses contain one entry for every step performed, in '
     'order, the saved validation accuracies one entry for every logged step, and the saved parameters are those '
     'after the last step. The final accuracy grid is the one obtained from exactly these saved parameters at the '
     'moduli stored next to it.',
     ['schedules', 'histories', 'configurations'],
     'every number of steps performed relative to the logging interval, as decided by clock and step durations, and every configuration',
     'The script is untested, and the outcome depends on where the time limit falls between two logged steps.',
     ['scripts/train.py', 'cyjax/ml.py'],
     [('saving in the training loop and after it', 'scripts/train.py main')],
     [('parameters, losses', 'in-memory state that must reach the disk', 'scripts/train.py main')],
     ['output directory after the run'])

prop('C15', 'No two random draws of a training run share randomness',
     'In a training run every random draw (moduli and points of each batch, validation moduli, initial weights, '
     'dropout of each step, every validation and final accuracy estimate) uses its own random key, neither reused '
     'nor obtained by splitting a key that is itself used. Every step trains on a batch that no earlier step has '
     'used, with each point used together with the modulus it was drawn for.',
     ['histories', 'configurations', 'schedules'],
     'every run: configuration of batch and buffer sizes, number of steps, logging interval and evaluation grid',
     'Reused randomness leaves every single value plausible; it shows only in the history of a whole run.',
     ['scripts/train.py', 'cyjax/ml.py', 'cyjax/util.py', 'cyjax/donaldson.py'],
     [('one key sequence for the whole run', 'scripts/train.py main'),
      ('buffered sampling', 'cyjax/ml.py BatchSampler'),
      ('accuracy estimates', 'cyjax/donaldson.py sigma_accuracy')],
     [('key sequence', 'every key handed out once', 'cyjax/util.py PRNGSequence'),
      ('buffer and position', 'every batch handed out once', 'cyjax/ml.py BatchSampler')],
     ['keys and samples reaching the numerical code'])

prop('C16', 'Each training step is exactly one optimiser update on its own batch',
     'Each training step changes the network parameters by exactly one update of the configured optimiser, with its '
     'state carried over from the step before, for the gradient of the mean loss over the moduli of that step\'s '
     'batch (with the configured dropout) at the parameters the step before has left. The loss recorded for a step '
     'is that mean loss, and logging, saving and evaluating change nothing in this sequence.',
     ['histories', 'configurations', 'schedules'],
     'every run: optimiser, configuration, number of steps, logging interval and point where the time limit falls',
     'State carried between steps is only visible over several steps of the script, which no test runs.',
     ['scripts/train.py', 'cyjax/ml.py'],
     [('update step and training loop', 'scripts/train.py main')],
     [('parameters and optimiser state', 'advance once per step', 'scripts/train.py main')],
     ['sequence of parameters, recorded losses'])

prop('C17', 'Training runs started at different instants are independent of each other',
     'Two training runs started from the same place at different instants, however close (down to a millisecond), '
     'write their results into different folders, so that neither changes a file of the other. If no seed is '
     'configured, they also use different random numbers.',
     ['schedules', 'configurations', 'histories'],
     'every pair of start instants, clock readings (also set back between the runs) and configurations',
     'The outcome depends on what the clock shows at two process starts, which unit tests do not control.',
     ['conf/dwork.yaml', 'conf/quintic.yaml', 'scripts/train.py'],
     [('output folder named after the time', 'conf/dwork.yaml'), ('seed taken from the clock', 'scripts/train.py main')],
     [('output folders', 'one per run', 'file system')],
     ['folders and files after both runs', 'random keys used'])

prop('C18', 'Accuracy and loss are the stated averages over exactly the points drawn',
     'The accuracy estimate asks for exactly the requested number of points and returns the weighted mean of '
     '|1 - eta / (weighted mean of eta)| over exactly these, and the training loss of a sample is the mean of '
     'weight times (eta / (weighted mean of eta) - 1)^2 plus the mean penalty log(1 + eta^2) of negative eta. In '
     'batches each entry is computed from its own matrix, moduli and points.',
     ['inputs', 'histories', 'configurations'],
     'every set of points, weights and volume ratios delivered, every batch shape, direct and compiled calls',
     'Tests compare with stored values for ordinary points, for which normalisations and pairings can be exchanged unnoticed.',
     ['cyjax/donaldson.py', 'cyjax/ml.py'],
     [('accuracy from a fresh sample', 'cyjax/donaldson.py sigma_accuracy'), ('loss over a sample', 'cyjax/ml.py variance_eta_loss')],
     None, ['return values', 'calls received by the point source'])

prop('C19', 'Calls inside compiled or differentiated functions leave nothing behind',
     'Polynomials, varieties, metrics and samplers may be used directly or inside functions that are being compiled, '
     'vectorised, scanned, differentiated or only traced for their shape, in any order, even if a trace fails or is '
     'interrupted. Every call returns what the direct call on newly created objects returns; none fails because of earlier ones.',
     ['histories', 'fault_sequences', 'configurations'],
     'every sequence of calls, the kind of transformation around each, and every point where a trace can be aborted',
     'A value remembered from a trace does harm only in a later call; tests make one kind of call on new objects.',
     ['cyjax/polynomial.py', 'cyjax/variety.py', 'cyjax/donaldson.py', 'cyjax/ml.py'],
     [('lazily computed charts, coefficients and compiled functions kept on objects', 'cyjax/polynomial.py, cyjax/variety.py'),
      ('compiled sampling kept by the batch sampler', 'cyjax/ml.py BatchSampler')],
     [('caches on objects', 'hold no values of a finished trace', 'cyjax/polynomial.py, cyjax/variety.py')],
     ['return values'])

prop('C20', 'Jobs of one parameter sweep do not influence each other',
     'When the training script is started as a sweep over several configurations, which are executed one after another in one '
     'process, every job writes, into a folder of its own, the results that its configuration and seed give in a run of its '
     'own. This also holds for the other jobs when a file operation of one job fails.',
     ['histories', 'fault_sequences', 'configurations'],
     'every set of swept values, order of the jobs and file operation that fails in one of them',
     'No test runs the script; state that survives a job can only be seen in the next one.',
     ['scripts/train.py', 'scripts/conf', 'cyjax/ml.py'],
     [('one call of the training function per job', 'scripts/train.py main'), ('objects and caches of the package shared by the jobs', 'cyjax')],
     [('state of the module and the package', 'no job can see that another one ran before', 'scripts/train.py, cyjax')],
     ['results files'])

prop('C21', 'Drawing, training and computing for longer costs no more memory or compilation',
     'After the first two buffers of a batch sampler, drawing compiles nothing more and the memory held in arrays stays the '
     'same, also when refills fail or are interrupted; in training, steps between two logged ones compile nothing after the '
     'first cycle and only the recorded losses and accuracies add to the memory. Repeated calls on polynomials, varieties '
     'and metrics keep no arrays once their results are dropped.',
     ['histories', 'fault_sequences', 'configurations'],
     'every length of a run, buffer size, logging interval, and position of failed refills and interrupted calls',
     'Tests draw a few batches and make a few calls; growth and repeated compilation only show in long runs.',
     ['cyjax/ml.py', 'scripts/train.py', 'cyjax/variety.py', 'cyjax/donaldson.py'],
     [('sampling compiled once and a buffer that is replaced', 'cyjax/ml.py BatchSampler'), ('update step compiled once', 'scripts/train.py main')],
     [('buffer and caches', 'bounded by the buffer size, whatever was drawn before', 'cyjax/ml.py BatchSampler')],
     ['arrays alive', 'number of compiled programs'])

prop('C22', 'Random samplers stay in their sets and tie no independent parts together',
     'Whatever numbers the generator delivers, points drawn in a square, disk, circle, sphere, projective space or overlap of two '
     'charts lie in the documented set, with the requested count, and moduli of a training run within the configured bounds of '
     'their parameter. Independent parts (the points, real and imaginary part in a square, modulus and phase in a disk or overlap, '
     'rows of a shuffle) never depend on the same random number, and each depends on some.',
     ['inputs', 'fault_sequences', 'configurations'],
     'every sequence of numbers of the generator, including zeros, ties and ends of the range, every size, dimension and pair of charts',
     'Tests look at ordinary draws; parts which share a number still have the right distribution one by one.',
     ['cyjax/random.py', 'cyjax/util.py', 'scripts/train.py'],
     [('one key split for phases and moduli', 'cyjax/random.py uniform_angle, projective_overlap'),
      ('shuffle of every row of the polynomial indices', 'cyjax/util.py shuffle_axis'),
      ('bounds per parameter', 'scripts/train.py cube_param_sampler')],
     None, ['return values', 'numbers taken from the generator', 'results files'])

# ---- properties that are pure functions of their input: stated, not claimed

prop('N01', 'Coordinate and index conversions are mutually inverse in all charts',
     'Converting points between homogeneous and affine coordinates and between charts, and indices between the two '
     'numberings, describes the same point, and going back gives the original, for every dimension, chart pair, '
     'negative index and batch shape.',
     ['inputs', 'configurations'], 'every point, chart pair, dimension and batch shape',
     'Tests try random points of a few dimensions.',
     ['cyjax/projective.py', 'cyjax/util.py'],
     [('pop and insert at an index', 'cyjax/util.py pop, insert_1d, insert_col'), ('chart change', 'cyjax/projective.py change_chart')])
prop('N02', 'The Fubini-Study metric is the Hessian of its potential in every chart',
     'The Fubini-Study metric is Hermitian positive definite, equals the mixed Hessian of its potential and '
     'transforms covariantly between charts.',
     ['inputs'], 'every point, chart and dimension', 'Tests use random points only.',
     ['cyjax/projective.py', 'cyjax/differential.py'],
     [('closed formula', 'cyjax/projective.py fs_metric'), ('automatic mixed Hessian', 'cyjax/differential.py complex_hessian')])
prop('N03', 'Pulled-back metrics and weights do not depend on chart or eliminated coordinate',
     'Induced metrics transform as tensors and their volume ratios and weights are unchanged when the chart or the '
     'eliminated coordinate is changed.',
     ['inputs', 'configurations'], 'every point, chart and choice of eliminated coordinate', 'Tests use random points of one variety.',
     ['cyjax/variety.py', 'cyjax/differential.py'],
     [('implicit Jacobian', 'cyjax/differential.py jacobian_embed, induced_metric')])
prop('N04', 'Algebraic metrics are Kaehler and their curvature matches their volume form',
     'For positive-definite matrices the metric is positive definite and the Hessian of its potential, and the '
     'curvature is minus the Hessian of the logarithm of its determinant, in every chart.',
     ['inputs'], 'every Hermitian matrix, point and degree', 'Tests compare with autodiff at random points.',
     ['cyjax/donaldson.py'], [('closed derivative formulas', 'cyjax/donaldson.py GeometricObjects')])
prop('N05', 'The reduced monomial basis is a basis of sections on the variety',
     'The monomials kept after reduction are linearly independent on the variety and span the restriction of all '
     'monomials of the degree.',
     ['inputs', 'configurations'], 'every variety, moduli value and degree', 'Tests compare the size for a few cases.',
     ['cyjax/donaldson.py'], [('removal of one monomial per relation', 'cyjax/donaldson.py reduced_monomial_basis')])
prop('N06', 'Network outputs always decode to Hermitian positive-definite matrices',
     'Every real parameter vector with non-zero diagonal decodes to a Hermitian positive-definite matrix and '
     'initial parameters decode to nearly the identity.',
     ['inputs'], 'every parameter vector', 'Tests decode a few random vectors.',
     ['cyjax/ml.py'], [('Cholesky parametrisation', 'cyjax/ml.py cholesky_decode, cholesky_from_param')])
prop('N07', 'Batched evaluation equals pointwise evaluation for every batch shape',
     'Every function that accepts leading batch dimensions returns the stacked pointwise results, inside and '
     'outside compilation.',
     ['inputs', 'configurations'], 'every combination of batch shapes of all arguments', 'Tests cover a few shapes.',
     ['cyjax/variety.py', 'cyjax/donaldson.py', 'cyjax/projective.py', 'cyjax/polynomial.py'],
     [('automatic vectorisation', 'auto_vmap decorators')])
prop('N08', 'Random points have the documented distribution',
     'Sphere, disk, projective and overlap samples follow the documented distributions, and intersection points '
     'the pulled-back Fubini-Study measure.',
     ['inputs'], 'the distribution over all keys', 'Tests check ranges and norms only.',
     ['cyjax/random.py', 'cyjax/variety.py'], [('normalised Gaussian draws', 'cyjax/random.py real_sphere, complex_sphere')])
prop('N09', 'The sigma measure and loss are non-negative, scale free and zero only when flat',
     'The accuracy measure and the variance loss are unchanged when the Hermitian matrix is scaled, non-negative '
     'for positive-definite matrices, and vanish exactly when the volume ratio is constant.',
     ['inputs'], 'every matrix, moduli value and sample', 'Tests compare a few values.',
     ['cyjax/donaldson.py', 'cyjax/ml.py'],
     [('normalised volume ratio', 'cyjax/donaldson.py sigma_accuracy, cyjax/ml.py variance_eta_loss')])
prop('N10', 'Network features cover every documented product of moduli powers exactly once',
     'The network input consists of all products of the chosen powers of the moduli, as absolute values, angles and '
     'parts, for every number of moduli and batch shape.',
     ['inputs', 'configurations'], 'every configuration of powers, moduli count and batch shape', 'Tests run one configuration.',
     ['cyjax/ml.py'], [('feature construction', 'cyjax/ml.py HNetMLP.__call__')])

path = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
with open(path, 'w') as f:
    for p in P:
        f.write(json.dumps(p) + '\n')
print(len(P))
