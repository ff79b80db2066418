#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script only because JSON lines are hard to edit by hand)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=list(observe), hook_needed=None)))
M = 'ctbayes/mjplib/skeleton.py'; I = 'ctbayes/mjplib/inference.py'
H = 'ctbayes/sdelib/hitting.py'; L = 'ctbayes/sdelib/layers.py'; PA = 'ctbayes/sdelib/paths.py'
IN = 'ctbayes/sdelib/interpolators.py'; T = 'ctbayes/sdelib/transforms.py'; MO = 'ctbayes/sdelib/moments.py'
EK = 'ctbayes/ea3lib/skeleton.py'; ES = 'ctbayes/ea3lib/seed.py'
AR = 'ctbayes/misc/ars.py'; AD = 'ctbayes/misc/adapt.py'; BF = 'ctbayes/misc/bfactories.py'
IS = 'ctbayes/ito/static.py'; IM = 'ctbayes/ito/mcmc.py'; IE = 'ctbayes/ito/mcem.py'
IO = 'ctbayes/ito/models/ou.py'; IC = 'ctbayes/ito/models/cir.py'
SS = 'ctbayes/switching/static.py'; SM = 'ctbayes/switching/mcmc.py'; SE = 'ctbayes/switching/mcem.py'; ST = 'ctbayes/switching/types.py'
S1, S2, S3 = ['ctbayes/switching/models/ou%s.py' % s for s in ('', '2', '3')]

p('C01', 'Cutting and pasting regime paths loses nothing',
  'For every piecewise-constant regime path and every increasing sequence of cut times inside its horizon, cutting gives consecutive pieces that each start at local time zero, whose durations are the gaps between cuts, and which visit the states of the original path at the corresponding times. '
  'Pasting pieces gives one path that follows each piece in turn over the total duration and records no jump where the state does not change. '
  'Pasting the pieces of a cut path gives back the original path, up to rounding of times.',
  ['inputs'], 'all valid paths (any number of jumps), all increasing cut times in the open horizon including cuts that coincide with jumps, all positive horizons',
  'The doctests cut three-state random paths at random times; cuts that coincide with jumps, pieces without jumps at particular positions and arbitrary lengths are never sampled, and equality is only looked at through numpy reductions.',
  [M], [('partition_skeleton', M), ('paste_partition', M), ('repartition_skeleton', M), ('sample_partition', M)])
p('C02', 'Simulated regime paths are valid and meet their endpoints',
  'Every regime path simulated forwards, backwards, between two states, or piece by piece starts at time zero, has strictly increasing jump times below its horizon, and never lists the same state twice in a row. '
  'A forward path starts in the requested state, a backward path ends in the requested state, a bridge does both, and re-simulating the pieces of a cut path keeps every duration and the states at the interior cut times. '
  'Forward paths leave a state after an exponential time with rate equal to its total exit rate, for a target chosen in proportion to the exit rates, and bridges follow the same process conditioned on the end state.',
  ['inputs', 'histories'], 'all irreducible generator matrices with positive off-diagonal rates, all horizons, all states, all outcomes of the random draws',
  'Tests compare long-run occupation frequencies of one random three-state chain at 1% tolerance; support and endpoint facts must hold on every draw.',
  [M], [('sample_forwards', M), ('sample_backwards', M), ('sample_bridge', M), ('mutate_partition', M)])
p('C03', 'Reading a regime path off at times',
  'Evaluating a regime path at times within its horizon returns, at each time, the state entered at the last jump not later than that time. Evaluating past the horizon raises ValueError. '
  'The estimated occupation probabilities are the fractions of the horizon spent in each requested state, last sojourn included.',
  ['inputs'], 'all valid paths, all arrays of query times, all state lists',
  'No test evaluates a path at jump times, at the horizon or past it, and none checks occupation fractions for short paths.',
  [M], [('Skeleton.__call__', M), ('est_stat', M)])
p('C04', 'Conjugate inference for jump rates',
  'Updating gamma beliefs about jump rates with a regime path adds the number of observed transitions between each ordered pair of states to the shapes, and the whole time spent in each state, up to the horizon, to every rate of its row. '
  'The log-likelihood of a path under a generator is the sum of the log rates of its transitions plus each sojourn time, the last included, multiplied by the (negative) diagonal rate of its state. '
  'The log prior is the gamma log density of the off-diagonal rates up to a constant.',
  ['inputs'], 'all valid paths, all gamma hyperparameters, all generators',
  'The only test checks posterior concentration on a path of length 1e5, where one missing sojourn is invisible.',
  [I], [('update', I), ('eval_loglik', I), ('eval_logprior', I)])
p('C05', 'Generator matrices are proper and summarised correctly',
  'Every generator the library builds (trial, sampled, posterior mean, posterior mode, EM update) has nonnegative off-diagonal rates and rows that sum to zero, with off-diagonal entries equal to the stated gamma summary (draw, shape over rate, or shape minus one over rate). '
  'The stationary distribution returned for a generator sums to one and is left unchanged by it, and transition probabilities over a time are the matrix exponential of time times generator.',
  ['inputs'], 'all dimensions at least two, all gamma hyperparameters (shape above one for modes), all irreducible generators',
  'Only statistical tests use these matrices; no test asserts row sums, signs, or invariance for arbitrary rates.',
  [M, I, SM, SE, SS], [('sample_trial_generator', M), ('get_stat', M), ('get_trans', M), ('sample_param', I), ('get_ev', I), ('get_mode', I), ('update_generator', SE), ('construct_gen_hyperprior', SS)])
p('C06', 'Poisson points stay in the box and come in order',
  'Every Poisson point process draw lies inside the requested box and is sorted by its first coordinate, whether returned at once or in batches, and the number of points over all batches is one Poisson draw with mean intensity times volume. '
  'Batches hold the requested number of points, except possibly the last, continue in increasing order, and their first coordinates jointly are ordered uniforms over the box, independent of uniform remaining coordinates.',
  ['inputs', 'histories'], 'all positive intensities, boxes of any dimension, batch sizes, all outcomes of the draws',
  'The doctest pools 1e4 points with batch size 2 through a KS test of the pooled coordinates at one random seed.',
  [M], [('sample_batch_ppp', M), ('sample_ppp', M)])
p('C07', 'Distribution of a Brownian bridge minimum',
  'The distribution function of the minimum of a Brownian bridge is exp(-2(a-m)(b-m)/T) below both endpoints and one above, optionally conditioned on the minimum lying between given bounds; it is nondecreasing, zero at the lower and one at the upper bound. '
  'The quantile function is its inverse, returns a value within the bounds, and handles probabilities zero and one.',
  ['inputs'], 'all positive durations, all endpoints, all admissible bounds, all probabilities',
  'The doctests check four edge values on one random input.',
  [H], [('cdf_brownbr_min', H), ('ppf_brownbr_min', H)])
p('C08', 'Minimum samplers respect bounds and duration',
  'A sampled minimum of a Brownian bridge never exceeds either endpoint, lies within the requested bounds, and is attained strictly inside the time interval; its value follows the conditioned distribution function, and its time the conditional law given the value. '
  'Under an upper bound on the path, proposals are rejected exactly when either side of the minimum is decided to cross the bound, and exhaustion of the budget raises the budget error. The deterministic variant driven by given uniforms and a chi-square value follows the same law.',
  ['inputs', 'histories'], 'all durations, endpoints, bounds, all outcomes of the random draws',
  'The doctests run one two-sample test each at one random parameter (two of them compare the wrong coordinate).',
  [H, T], [('sample_brownbr_min', H), ('sample_layerbr_min', H), ('gen_seeded_brownbr_min', T)])
p('C09', 'Escape decisions are exact',
  'Deciding whether a Brownian or three-dimensional Bessel bridge leaves a given level, for a given uniform seed, gives True exactly when the seed is below the true escape probability, including when the bridge is known to stay below a larger level. '
  'The decision is immediate when an endpoint already touches the level (escape) or when the known bound is below the level (no escape). Successive series values bracket the escape probability from above and below and converge to it.',
  ['inputs'], 'all durations, admissible endpoints, levels, outer bounds, all seeds',
  'The doctests compare frequencies at one random parameter; a bracket that fails for some parameters (as it did for bounded bridges close to the level) is not sampled.',
  [H], [('sample_brownbr_esc', H), ('sample_bessel3br_esc', H), ('series_brownbr_esc', H), ('series_bessel3br_esc', H)])
p('C10', 'Layers are nested and contain the endpoints',
  'Layer number zero is the range of the two endpoints; layers strictly grow with their number, always contain both endpoints, stay within the state bounds and converge to them, and are symmetric for symmetric bounds. '
  'The sampled layer of a bridge is the first one the bridge is decided not to escape, all decided by one seed; the anchor sectors are the gaps between this layer and the previous one, below and above.',
  ['inputs', 'histories'], 'all durations, endpoints, bounds (finite, half-infinite, infinite), layer numbers, seeds',
  'The doctests look at layer zero, one huge layer number and frequencies at one random parameter.',
  [L], [('compute_edges', L), ('sample_layer', L), ('sample_anchor', L), ('sample_edges', L)])
p('C11', 'Wiener, bridge and Bessel samplers have the right Gaussian structure',
  'Values sampled from a Wiener process or Brownian bridge at given times are affine in independent standard normals, with mean and covariance equal to those of the process, for every set of increasing times, start, end and drift. '
  'Bessel values are the Euclidean norm of independent such coordinates with the stated start, drift or end in one coordinate, and are never negative.',
  ['inputs'], 'all increasing time grids of any length, all starts, ends, drifts, durations, dimensions',
  'One KS test of Mahalanobis distances on one random grid of ten times.',
  [PA], [('sample_wiener', PA), ('sample_brownbr', PA), ('sample_bessel', PA), ('sample_besselbr', PA)])
p('C12', 'Gaussian moment formulas',
  'The reported mean and covariance of a Wiener process are x+mu*t and min(s,t); of a Brownian bridge from a to b over T they are a+(b-a)t/T and min(s,t)(T-max(s,t))/T. '
  'Conditioning a Gaussian vector on its last coordinate gives the usual conditional mean and covariance.',
  ['inputs'], 'all time grids of any length, all endpoints, all Gaussian moments with positive last variance',
  'Doctests check one two-point grid each; the conditioning formula has no test.',
  [MO], [('moments_wiener', MO), ('moments_brownbr', MO), ('moments_gaussian_bridge', MO)])
p('C13', 'Refining a path keeps what is known',
  'Refining a stored path at new times keeps every stored time and value unchanged, adds exactly the missing times in sorted order, and returns the values at the requested times. '
  'Values added to a layered path stay within its layer; the path keeps its layer and hit level, and its hit flags match its segments: a segment not marked as hitting stays below the hit level, and a path that was marked as hitting stays so marked. '
  'Asking only for times already stored returns the stored values and changes nothing; asking past the end raises ValueError.',
  ['inputs', 'histories'], 'all stored paths (any number of points, either orientation, with or without hit flags), all new time arrays, all outcomes of draws, any sequence of refinements',
  'The two interpolation tests compare one marginal by a two-sample test on fresh paths with no hit flags checked; repeated refinement is not sampled.',
  [IN, EK, ES, PA], [('fill_wiener_inner', IN), ('fill_wiener_outer', IN), ('interpolate_skeleton', EK), ('interpolate_seed', ES), ('sample_layerbr', PA), ('propose_layerbr', PA), ('propose_layerbr_edge', PA)])
p('C14', 'Time reversal and reflection undo themselves',
  'Reversing a path in time maps each time t to T-t in the reversed order with the values attached, and reversing twice restores it; reflecting about a level maps x to twice the level minus x, and reflecting twice restores it. '
  'Flipping a layered path does both about the midpoint of its endpoints, exchanges the roles of lower and upper edges, keeps start and end values, keeps hit flags attached to their segments, and is its own inverse.',
  ['inputs'], 'all paths of any length, all levels, with and without hit flags',
  'Doctests check reverse and reflect on ten random points; flipping of hit flags and edges has no test.',
  [T, EK], [('reverse', T), ('reflect', T), ('flip_skeleton', EK), ('pivot_brownbr', T), ('gen_seeded_bessel3br', T)])
p('C15', 'Exact-algorithm acceptance and unbiased estimators',
  'A layered bridge proposal is accepted exactly when every point of a unit-rate Poisson process on duration times bound-gap lies above the discrepancy at that time, measured from the lower bound that is discounted; the discounted log weight returned is minus the integral of that lower bound. '
  'The Poisson estimators of the path likelihood equal, per point, the log of (upper bound minus discrepancy) less the log intensity, plus the matching exponential correction, so that their exponentials are unbiased. Only accepted proposals are returned, those carrying a weight being kept with probability exp(weight) relative to the global lower bound of the discrepancy (never more than one), and budget exhaustion raises the budget error.',
  ['inputs', 'histories'], 'all bounds and discrepancy functions with valid bounds, all paths, all outcomes of draws',
  'End-to-end tests compare marginals at one parameter for one model at 1% level.',
  [EK, ES], [('flip_poisson_coin', EK), ('est_poisson_coin', EK), ('sample_skeleton', EK), ('flip_poisson_coin', ES), ('est_poisson_coin', ES), ('sample_bridge', ES), ('bound_disc_path', ES), ('integrate_disc_bound', ES)])
p('C16', 'Model bounds really bound the discrepancy',
  'For every model and every interval of states, the lower and upper values reported for the interval bound the discrepancy everywhere on it and are attained or approached at an end or interior minimum, and the global lower value is never above them where a global minimum exists. '
  'The reported location of the minimum of the square-root model is the minimiser whenever one exists.',
  ['inputs'], 'all admissible parameters, all regimes, all intervals within the state space',
  'Tests run one default parameter per model; the square-root model at small reversion levels was never sampled.',
  [IO, IC, S1, S2, S3], [('eval_bounds_disc', IO), ('eval_bounds_disc', IC), ('eval_bounds_disc', S1), ('eval_bounds_disc', S2), ('eval_bounds_disc', S3)])
p('C17', 'Model drift, antiderivative, derivative and transforms agree',
  'For every model, parameter and state, the stated antiderivative differentiates to the drift and the stated derivative is the derivative of the drift; the discrepancy is half the squared drift (over squared volatility) plus half its derivative. '
  'The map to unit-volatility scale and its inverse undo each other and its stated derivative is right. All of these work elementwise on arrays, using for each entry the parameters of its own regime.',
  ['inputs'], 'all admissible parameters, all states, all arrays of states and regimes',
  'Tests only exercise these through likelihood ratios of one model each at fixed parameters; the third switching model is never run.',
  [IO, IC, S1, S2, S3, IS, SS], [('eval_drift', S3), ('sx_eval_drift', S3), ('dx_eval_drift', S3), ('eval_disc', SS), ('eval_disc', IS), ('reduce/dereduce/dv_reduce', IC)])
p('C18', 'Dual-coin intensity dominates the discrepancy change',
  'For any two parameter values of a model offering parameter sampling and any bridge within its layer, the intensity used to compare them is at least the absolute difference of the two discrepancies at every time of the bridge. '
  'The dual coin then succeeds exactly when no Poisson point falls below the one-sided difference in the asked direction.',
  ['inputs', 'histories'], 'all pairs of admissible parameters, all segments and layers, all times',
  'A violated bound only shows as an assertion on rare paths; the sampled tests never reach it.',
  [IO, S1, S2, S3, IM, SM, ES], [('eval_bounds_grad', IO), ('eval_bounds_grad', S1), ('eval_bounds_grad', S2), ('eval_bounds_grad', S3), ('flip_param_coin', IM), ('flip_param_coin', SM), ('flip_dual_coin', ES)])
p('C19', 'Standardising a bridge segment and undoing it',
  'Standardising a bridge segment maps its time interval onto the unit interval and its start and end values to zero, and the reverse map undoes it for every time and value; at the ends the reverse map gives the observed values. '
  'Each consecutive pair of observations gets its own maps, with its own duration, end values and, with regimes, the volatility of the regime at its start.',
  ['inputs'], 'all durations, end values, volatilities, times and values, any number of observations',
  'Pivot tests compare reconstructed marginals at a fixed parameter.',
  [IS, SS], [('norm_rsde', IS), ('denorm_rsde', IS), ('norm_rsde', SS), ('denorm_rsde', SS), ('gen_normops', IS), ('gen_normops', SS)])
p('C20', 'Two-coin Bernoulli factory',
  'Each round of the two-coin algorithm tries coin one with probability w1/(w1+w2) and coin two otherwise, ends on the first heads, and reports which coin succeeded together with that flip\'s state; after a failed round it may escape with the given probability, reporting failure and the fallback state. '
  'Hence without escape the first coin wins with probability w1*p1/(w1*p1+w2*p2); the single-generator version asks its generator for the side chosen. Budget exhaustion raises the budget error.',
  ['inputs', 'histories'], 'all log weights, all coin sequences, all escape probabilities, all outcomes of draws, any number of rounds',
  'One binomial test at one random weight; the joint version and the escape branch have no test.',
  [BF], [('sample_twocoin', BF), ('sample_twocoin_joint', BF)])
p('C21', 'Random walk proposals transform with the right Jacobian',
  'Proposals for one-side bounded parameters are Gaussian steps on the log distance to the bound, stay strictly inside it, and unbounded parameters move by plain Gaussian steps. '
  'The two reported log weights are the log densities of the transform at the proposed and current value, so that their difference is the correct proposal correction in the acceptance ratio, for scalar and vector proposals alike.',
  ['inputs', 'histories'], 'all current values inside bounds, all bounds finite on at most one side, all proposal scales, all draws',
  'No stable test runs a parameter update.',
  [AD], [('transform_to_reals', AD), ('transform_to_const', AD), ('MyopicRwSampler.propose', AD), ('MyopicMvRwSampler.propose', AD)])
p('C22', 'Adaptation follows its recursion and schedule',
  'The sequential mean and covariance update equals the batch sample mean and unbiased sample covariance after including the new observation. '
  'After each step a sampler stores the new state and success rate; the log scale changes only at the scheduled, growing period ends, by a decreasing learning rate times the gap between the observed and target success rate, and the proposal covariance is refreshed only then. '
  'Regime proposals re-simulate the current path on pieces cut at a random subset of the interior times they were offered, and report exactly those cuts.',
  ['inputs', 'histories'], 'all observation sequences, all success histories of any length, all decay and period settings',
  'The doctest of the recursion does not pass on the pinned commit and is not among the stable tests; schedules are not tested.',
  [AD], [('seq_update_normal', AD), ('MyopicMvRwSampler.adapt', AD), ('MyopicRwSampler.adapt', AD), ('MyopicMjpSampler.adapt', AD), ('MyopicMjpSampler.propose', AD)])
p('C23', 'Adaptive rejection sampling encloses the target',
  'For a strictly concave log density, the upper hull built from tangents is nowhere below it and the lower hull of chords nowhere above it between the supports, both touching it at the supports, and segments of the upper hull meet at the reported intersection points. '
  'Draws from the envelope follow the normalised exponential of the upper hull and lie within the bounds. Draws are accepted exactly with probability target over envelope, so the output follows the target density, also when a support sits on the mode.',
  ['inputs', 'histories'], 'all strictly concave differentiable log densities, all increasing supports bracing the mode, all bounds, all draws',
  'One chi-square KS test and two point doctests.',
  [AR], [('sample', AR), ('gen_upper', AR), ('eval_upper', AR), ('eval_lower', AR), ('sample_envelope', AR), ('brace', AR)])
p('C24', 'Augmented switching paths keep data, regimes and times together',
  'An augmented path lists every observation time with its observed value and every regime change with an imputed value, in increasing time order with the regime in force at each; dropping the observations recovers the regime path. '
  'Between observations, values at regime changes follow a Brownian bridge in the time scale of accumulated squared volatility. '
  'Splitting an augmented path at some observation times and pasting the parts gives it back, with one part more than split times, also after times have picked up rounding errors.',
  ['inputs', 'histories'], 'all regime paths, observation sets, parameters, split subsets, all sequences of split and paste',
  'No stable test runs a hidden-path update; only the pivot of seeds is tested.',
  [SS, SM, ST], [('sample_aug', SS), ('sample_anchors', SS), ('split_hidden', SM), ('paste_hidden', SM), ('prune_anchorage', ST)])
p('C25', 'Complete-data log-likelihood',
  'The biased log-likelihood of observations is the sum over consecutive pairs of the Gaussian log density of the transformed increment, with variance the (volatility-scaled) elapsed time, the log Jacobian of the transform, and the drift antiderivative difference (over squared volatility with regimes). '
  'With regimes, restricting to one regime keeps exactly the segments starting in it, and the second term corrects the segment densities to the density of the anchors given the observations.',
  ['inputs'], 'all models assembled from consistent drift parts, all observation and anchor sequences of any length, all regimes',
  'Only importance-sampling estimates at one parameter are compared with a closed form, within Monte Carlo error.',
  [IS, SS], [('eval_biased_log_lik', IS), ('eval_biased_log_lik', SS)])
p('C26', 'Posterior updates accept by the right ratio and keep state otherwise',
  'A parameter or hidden-path update accepts by the Barker rule with the posterior weight of each side: likelihood times prior times proposal correction for parameters, restricted to the regime being updated, and likelihood with the discounted bound for hidden paths; with the pre-flip the two acceptance factors multiply to the same stationary law. '
  'On rejection the previous parameters and hidden path are returned unchanged apart from refinement of stored paths; on acceptance the proposed ones are returned; parameters and segments not under update are untouched.',
  ['inputs', 'histories'], 'all models, states, proposals, coin outcomes and draw outcomes, any number of segments and regimes',
  'No stable test runs a parameter or regime update; the bridge step is tested for one model only.',
  [IM, SM], [('update_params', IM), ('flip_param_precoin', IM), ('update_sde_bridge', IM), ('update_params_section', SM), ('flip_param_precoin', SM), ('update_hidden_section', SM), ('update_hidden', SM), ('update_params', SM)])
p('C27', 'Monte Carlo EM objective and updates',
  'The estimated augmented log-likelihood of a hidden path is the biased log-likelihood plus, per segment, minus its duration times the mean discrepancy at the support times; the estimated augmented likelihood adds the Poisson estimator and the discounted bound instead. '
  'The generator update maximises the averaged complete-data posterior of the rates and reports its value there; parameter search stays inside the buffered bounds, and particle counts grow at the stated rate until the objective changes by less than the tolerance.',
  ['inputs', 'histories'], 'all models, particle sets, hidden paths, tolerances',
  'Two estimators are compared with closed forms at one parameter; the generator update, bounds and stopping rule have no stable test.',
  [IE, SE], [('est_log_aug_lik', IE), ('est_aug_lik', IE), ('update_objective', IE), ('maximize_posterior', IE), ('buffer_bounds', IE), ('est_log_aug_lik', SE), ('update_generator', SE), ('maximize_posterior', SE)])
p('C28', 'All randomness comes from the generator passed in',
  'Every sampler that is given a random generator draws only from that generator or from streams spawned from it: the result is a function of the arguments and the generator state, and neither the global random state nor the default generators are read or advanced. '
  'Arguments other than the generator and adaptive samplers are not modified by any sampling or evaluation call.',
  ['inputs', 'histories'], 'all samplers, all arguments, all generator states, any interleaving with other users of global randomness',
  'Tests seed the global state and the default generators alike, so a draw from the wrong source goes unnoticed.',
  [M, I, H, L, PA, IN, EK, ES, AR, AD, BF, IS, IM, SS, SM], [('ome parameter threading', 'ctbayes'), ('MyopicMvRwSampler.propose', AD)])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for r in P: f.write(json.dumps(r) + '\n')
print(len(P))
