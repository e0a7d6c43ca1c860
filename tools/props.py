"""Source of properties.jsonl and MANIFEST.json (python3 tools/props.py)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, qtext, tests, files, mech, state=(), observe=()):
    P.append(
        dict(
            id=id,
            title=title,
            statement=statement,
            quantifier=dict(over=over, text=qtext),
            why_tests_cant=tests,
            anchors=dict(
                files=files,
                state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                mechanism=[dict(name=a, where=b) for a, b in mech],
                observe_at=list(observe),
                hook_needed=None,
            ),
        )
    )


R = "pyvbmc/"
PT = R + "parameter_transformer/parameter_transformer.py"
VP = R + "variational_posterior/variational_posterior.py"
VB = R + "vbmc/vbmc.py"
VO = R + "vbmc/variational_optimization.py"
AS = R + "vbmc/active_sample.py"
GP = R + "vbmc/gaussian_process_train.py"
IS = R + "vbmc/active_importance_sampling.py"
FL = R + "function_logger/function_logger.py"
WH = R + "whitening/whitening.py"
AF = R + "acquisition_functions/"
PR = R + "priors/"

prop(
    "C01",
    "Points mapped back to the original space lie strictly inside the hard bounds",
    "Every finite point of the inference space is mapped back to an original-space point whose bounded coordinates are strictly between the "
    "lower and the upper hard bound in floating point, and never NaN. This holds for every bounded transform type, however far out the point is, "
    "and whatever the bounds, centering and other variables are.",
    ["inputs", "configurations"],
    "all finite latent points, all representable bounds, transform types and centerings",
    "Tests evaluate a handful of points and bounds; rounding at the boundary (products that round to the bound, saturated sigmoids) needs all float values.",
    [PT],
    [("ParameterTransformer.inverse", PT), ("nudging points off the boundary", PT + ": _from_unit_interval")],
    observe=["values passed to the user's log-density"],
)
prop(
    "C02",
    "The parameter transform is invertible, monotone and centered on plausibles",
    "Transforming any interior point to the inference space and back, or the reverse, gives the same point, for all transform types, mixtures of bounded and "
    "unbounded variables, rotations and scalings. Along each variable the map is strictly increasing, hard bounds map to minus and plus infinity, and plausible bounds map to -0.5 and +0.5. "
    "The transform never modifies its argument and treats a single point like a one-row array.",
    ["inputs", "configurations"],
    "all points, bounds, centerings, positive scales and rotations, per transform type and per mixture of variable kinds",
    "Tests use fixed bounds and a few points with tolerance; a formula wrong only for some scale, mixture or rotation is not sampled.",
    [PT],
    [("ParameterTransformer.__call__ / inverse", PT)],
    [("mu, delta", "centering in transformed space", PT), ("scale, R_mat", "whitening", PT)],
)
prop(
    "C03",
    "The log-Jacobian is the log absolute determinant of the inverse transform",
    "For every point of the inference space the reported log-Jacobian equals the log absolute determinant of the derivative of the inverse transform there, including centering, scaling and rotation, "
    "so that densities expressed in the two spaces agree. Rows of a batch are treated independently.",
    ["inputs", "configurations"],
    "all points, bounds, centerings, scales and rotations, per transform type",
    "Tests compare with finite differences at a few points and mostly without whitening.",
    [PT],
    [("ParameterTransformer.log_abs_det_jacobian", PT)],
)
prop(
    "C04",
    "Bounds and starting points are validated, and the accepted ones are consistent",
    "Construction with any combination of given and missing bounds either raises ValueError or yields bounds that satisfy hard lower < plausible lower < plausible upper < hard upper in every variable, "
    "with every starting point strictly inside the hard bounds and inside the plausible box. User-supplied values that are already consistent (plausible bounds at least 0.1% of the hard range away from the hard bounds) are kept, and the caller's arrays are not modified.",
    ["inputs", "configurations"],
    "all bound and starting-point values incl. infinities and ties, and all combinations of missing arguments",
    "Tests try a few orderings; the interplay of missing, infinite, equal and too-close bounds is a product space.",
    [VB],
    [("VBMC._bounds_check", VB), ("VBMC.__init__", VB)],
)
prop(
    "C05",
    "The evaluation record is complete and self-consistent",
    "After any sequence of evaluations and additions the record holds each evaluation exactly once, at the index returned, with its original-space point, its transformed point, the returned value and the value plus the log-Jacobian there. "
    "Repeated evaluations of a point under noise are merged by inverse-variance weighting, counts of evaluations per point and in total match the calls, and the best recorded value is the maximum over all records. "
    "Growing the record never loses or alters earlier entries.",
    ["histories", "inputs"],
    "all sequences of calls with arbitrary points, values, noise levels and repetitions, crossing the capacity of the record",
    "Tests make a few calls with fixed functions; merging, growth and bookkeeping interact along histories.",
    [FL],
    [("FunctionLogger.__call__ / add / _record / _expand_arrays", FL)],
    [("X_orig, y_orig, X, y, S, X_flag, n_evals, Xn, y_max", "record arrays", FL)],
)
prop(
    "C06",
    "Invalid target values are rejected without corrupting the record",
    "If the target raises, or returns a value that is not a finite real scalar (or, under noise, a noise level that is not a finite positive scalar), the evaluation raises an error and the record is unchanged. "
    "Every finite real scalar value is accepted and stored unchanged.",
    ["inputs", "fault_sequences"],
    "all returned values incl. nan, infinities, complex, non-scalar, and noise levels, at any point of a history",
    "Tests check some invalid values one at a time on an empty logger.",
    [FL],
    [("FunctionLogger.__call__ / add", FL)],
)
prop(
    "C07",
    "Ending warm-up keeps the best points and enough of them",
    "The trimming done when warm-up ends works on the original-space values: it keeps every point within the threshold of the maximum, keeps at least the minimum number of highest-valued points if that many exist, drops the others from surrogate training, and never touches the stored values. "
    "Warm-up never ends before the configured conditions hold.",
    ["inputs", "histories"],
    "all recorded values and thresholds",
    "Tests use one or two constructed logs.",
    [VB],
    [("VBMC._setup_vbmc_after_warmup", VB), ("VBMC._check_warmup_end_conditions", VB)],
)
prop(
    "C08",
    "The returned solution is the best one the history allows",
    "The posterior returned at the end is the one recorded at some iteration not later than the allowed one: a stable last iteration is returned itself; otherwise the iteration with the highest safe lower bound (estimate minus a multiple of its uncertainty) among those since the most recent stable one, or, if none was stable, among the last fraction of iterations. With the rank criterion it is the iteration of lowest total rank. "
    "The reported index, lower bound, uncertainty and stability flag belong to that same iteration, and the history is left unchanged.",
    ["histories", "inputs"],
    "all histories of lower bounds, uncertainties and stability flags",
    "Tests use a few fixed histories.",
    [VB],
    [("VBMC.determine_best_vp", VB)],
)
prop(
    "C09",
    "Optimisation stops exactly when a budget is spent or the solution is stable",
    "The run is declared finished when the number of function evaluations or iterations reaches its maximum, or the stability criterion has held long enough, and not otherwise; it is never declared finished while the configured minimum of evaluations or iterations has not been reached. "
    "The reliability index is the mean of the change in lower bound, the uncertainty and the change in posterior, each relative to its tolerance.",
    ["histories", "configurations"],
    "all counters, budgets, tolerances and recorded histories",
    "Tests run specific option settings to completion.",
    [VB],
    [("VBMC._check_termination_conditions", VB), ("VBMC._is_finished / stability", VB), ("VBMC._compute_reliability_index", VB)],
)
prop(
    "C10",
    "The number of mixture components follows the adaptive rule, within limits",
    "The number of components never decreases by the growth rule and does not change during warm-up; it grows by one only when the lower confidence bound is the best of the recent iterations after warm-up and nothing was just pruned, growth never exceeds the configured maximum for the number of evaluated points, and the bonus applies only when the solution is reliable.",
    ["histories", "configurations"],
    "all histories of lower bounds and flags, evaluation counts and option values",
    "Tests fix two or three histories.",
    [VO],
    [("update_K", VO)],
)
prop(
    "C11",
    "Variational parameters survive the flat encoding and stay normalised",
    "Reading the parameters of a posterior as a flat vector and setting them back, in either encoding and for any choice of optimised groups, leaves the mixture unchanged. "
    "After setting any vector, weights are non-negative and sum to one, scales are positive, and the length-scale vector is normalised without changing the mixture; a transformed-encoding vector with negative scales or weights is rejected, and only such a vector. The caller's vector is neither modified nor shared. The soft bounds contain all training inputs seen so far.",
    ["inputs", "configurations"],
    "all parameter vectors, all subsets of optimised parameter groups, raw and transformed encodings",
    "Tests use a few random vectors and mostly all groups optimised.",
    [VP],
    [("VariationalPosterior.get_parameters / set_parameters / get_bounds", VP)],
)
prop(
    "C12",
    "The posterior density is the mixture density, in either space",
    "The density in the inference space is the weighted sum of the component densities; in the original space it is that density divided by the Jacobian of the map, and zero outside the hard bounds. "
    "The log-density is the logarithm of the density, and the result does not depend on the numeric type of the input or on batching, and evaluation changes neither argument nor posterior.",
    ["inputs", "configurations"],
    "all points, weights, means, scales, bounds; Gaussian and heavy-tailed options",
    "Tests compare a few points with stored MATLAB values.",
    [VP],
    [("VariationalPosterior.pdf / log_pdf", VP)],
)
prop(
    "C13",
    "Density gradients are the derivatives of the density",
    "Whenever the gradient of the density or log-density is requested it equals the exact derivative of the returned value with respect to each coordinate, for all mixtures, and the value is the same as without the gradient.",
    ["inputs"],
    "all points, weights, means and scales",
    "Tests compare finite differences at a few points.",
    [VP],
    [("VariationalPosterior.pdf(grad_flag=True)", VP)],
)
prop(
    "C14",
    "Reported moments are the moments of the mixture",
    "In the inference space the reported mean and covariance are exactly those of the mixture (including between-component spread), and asking for the mean alone gives the same mean. "
    "In the original space they are the sample mean and covariance of draws mapped to that space.",
    ["inputs"],
    "all mixtures; draws arbitrary",
    "Tests compare fixed mixtures within sampling error.",
    [VP],
    [("VariationalPosterior.moments", VP)],
)
prop(
    "C15",
    "Samples come from the mixture components they are attributed to",
    "Every sample is the mean of the component reported for it plus that component's scales times a standard draw, mapped to the requested space; exactly the requested number is returned. "
    "With balancing, each component receives at least the integer part of its expected count, and the remainder is drawn from the fractional parts.",
    ["inputs", "schedules"],
    "all mixtures, sample counts and outcomes of the random generator",
    "Tests check sample averages under a seed.",
    [VP],
    [("VariationalPosterior.sample", VP)],
)
prop(
    "C16",
    "Objective gradients used in variational optimisation are exact",
    "The gradients returned by the entropy bound, the expected log-joint, the parameter-bound penalty and the complete objective equal the derivatives of the values returned with them, for every subset of optimised parameters and both parameter encodings; the Monte-Carlo entropy's gradient is the derivative along its draws. Gradients that are not available (full variance) are refused, and the caller's parameter vector and bounds are left unchanged.",
    ["inputs", "configurations"],
    "all mixtures, GP hyperparameters, training sets and parameter subsets, for small sizes",
    "Tests use finite differences at fixed random points.",
    [VO, R + "entropy/entlb_vbmc.py", R + "entropy/entmc_vbmc.py"],
    [("entlb_vbmc / entmc_vbmc", R + "entropy/"), ("_gp_log_joint, _vp_bound_loss, _soft_bound_loss, _neg_elcbo", VO)],
)
prop(
    "C17",
    "The variational lower bound is expected log-joint plus entropy of the mixture",
    "The expected log-joint reported for a posterior is the exact Gaussian-process expectation under the mixture (kernel, mean function and weights), its variance is the exact posterior variance and non-negative, and the lower bound reported is the sum of expected log-joint and entropy. "
    "The deterministic entropy is the documented lower bound on the mixture entropy.",
    ["inputs"],
    "all mixtures, training sets and hyperparameters, for small sizes",
    "Tests compare a few MATLAB reference values.",
    [VO, R + "entropy/entlb_vbmc.py"],
    [("_gp_log_joint", VO), ("_neg_elcbo", VO), ("entlb_vbmc", R + "entropy/entlb_vbmc.py")],
)
prop(
    "C18",
    "Acquisition values follow their formulas and never select invalid points",
    "Each acquisition function returns its documented function of the posterior density and the surrogate's mean and variance, is finite or plus infinity and never NaN, and assigns plus infinity to points outside the hard limits. "
    "Points whose uncertainty is below tolerance are regularised away from, and evaluating the function changes neither the posterior, the surrogate nor the search points.",
    ["inputs"],
    "all predictive means, variances, densities and search points",
    "Tests use a few points with a fixed GP.",
    [AF],
    [("AbstractAcqFcn.__call__", AF + "abstract_acq_fcn.py"), ("concrete acquisition functions", AF)],
)
prop(
    "C19",
    "Search candidates stay inside the search box and the hard limits",
    "Every candidate generated for active sampling lies within the current search bounds, exactly the requested number is generated and candidates marked as cached are the cached starting points; integer variables are snapped to the nearest admissible value inside the hard bounds. "
    "The candidate with the lowest acquisition value (or a better point found by the optimiser started from it) is acquired and recorded, a known cached value is used instead of a new evaluation, and the search bounds only widen, within the hard bounds. "
    "The initial design consists of the provided points, in order and with their known values, followed by points inside the plausible box.",
    ["inputs", "schedules", "configurations"],
    "all bounds, caches, mixtures of candidate sources and outcomes of the random generator",
    "Tests fix one source at a time and a seed.",
    [AS],
    [("_get_search_points", AS), ("real2int", AF + "utilities.py"), ("active_sample initial design", AS)],
)
prop(
    "C20",
    "Prior densities match their definition, normalise and vanish outside the support",
    "Each prior's log-density equals the documented density for every point, is minus infinity outside the support and finite inside; the density integrates to one, samples lie in the support, and shapes and numeric types of the input do not change values. "
    "A product prior is the sum of its marginals' log-densities.",
    ["inputs", "configurations"],
    "all points and all admissible prior parameters",
    "Tests check fixed parameters and points and approximate integrals.",
    [PR],
    [("UniformBox, Trapezoidal, SplineTrapezoidal, SmoothBox, SciPy, Product, UserFunction", PR), ("convert_to_prior", PR + "convert_to_prior.py")],
)
prop(
    "C21",
    "User option values override defaults; unknown names are rejected",
    "A user-given option value is the one read back, all others have their default (evaluated for the given problem), user options are never overwritten by later loading or by the defaults that depend on other options (noisy targets), unknown option names raise, and options are locked after initialisation. "
    "Instances never share mutable option state.",
    ["configurations"],
    "all option names and values",
    "Tests set a few options.",
    [R + "vbmc/options.py"],
    [("Options", R + "vbmc/options.py")],
)
prop(
    "C22",
    "The iteration history is append-only and isolated from later changes",
    "A recorded value is read back at its iteration exactly as it was when recorded, no later recording or mutation of the recorded object changes it, keys are restricted, and iterations are non-negative. "
    "Continuing a finished run, or a loaded one, leaves the records of earlier iterations as they were.",
    ["histories"],
    "all sequences of recordings and later mutations",
    "Tests record a few values.",
    [R + "vbmc/iteration_history.py"],
    [("IterationHistory.record / record_iteration", R + "vbmc/iteration_history.py")],
)
prop(
    "C23",
    "Stochastic optimisation respects bounds and leaves its inputs alone",
    "Every iterate and the returned point respect the given bounds, each step is the ADAM step, every evaluation is recorded with its value and next iterate, the returned point and value are the means over the last minibatch of iterates and values, the number of evaluations never exceeds the maximum, a run stops early only when the recent values have flattened and the point has stopped moving, and the caller's starting point and bounds are not modified.",
    ["inputs", "configurations"],
    "all objective and gradient values (arbitrary functions), bounds and step counts",
    "Tests optimise two functions.",
    [R + "vbmc/minimize_adam.py"],
    [("minimize_adam", R + "vbmc/minimize_adam.py")],
)
prop(
    "C24",
    "Whitening re-expresses the same problem",
    "Applying a warp keeps every stored original-space point and value, recomputes transformed points and values with the new transform, and maps the posterior and surrogate hyperparameters consistently so that the mixture's original-space meaning is preserved; undoing it restores the previous state.",
    ["inputs", "histories"],
    "all mixtures, records and covariance structures, for small sizes",
    "Tests compare one warp with stored MATLAB values.",
    [WH],
    [("warp_input, warp_gp_and_vp, unscent_warp", WH)],
)
prop(
    "C25",
    "Divergences and high-density subsets are computed as defined",
    "The Gaussian divergence equals its closed form in both directions, is non-negative and zero for equal arguments; the high-density subset contains exactly the highest-valued requested fraction of points, with their values, indices and range. "
    "The divergence of two posteriors is that of their moments (Gaussianised) or the mean log-ratio of their densities over draws of each, in the original space, cut off at zero.",
    ["inputs"],
    "all means, covariances, values and fractions",
    "Tests use single examples.",
    [R + "stats/"],
    [("kl_div_mvn", R + "stats/kl_div_mvn.py"), ("get_hpd", R + "stats/get_hpd.py")],
)
prop(
    "C26",
    "Adding or removing components preserves the mixture's invariants",
    "Pruning removes only components whose weight is below threshold and whose removal keeps the objective within tolerance, and the remaining weights are renormalised; starting points created for optimisation keep the number of requested components, positive scales and normalised weights, and do not alter the current posterior. The optimised posterior is the best candidate evaluated, with its own statistics, and the reported per-component terms cover exactly the remaining components.",
    ["inputs", "configurations"],
    "all mixtures, weights and random draws, for small sizes",
    "Tests check shapes.",
    [VO],
    [("_vb_init, optimize_vp pruning", VO)],
)
prop(
    "C27",
    "Surrogate training uses exactly the recorded evaluations with the right noise",
    "The training set given to the surrogate consists of exactly the recorded, not-discarded points with their transformed values, and with the recorded noise variance when the target is noisy; training-option rules (number of samples, thinning, stops) follow the configured schedule, the hyperparameters' limits and priors follow the options and the training points, and proposal widths come from the weighted covariance of earlier hyperparameters.",
    ["inputs", "histories"],
    "all records, flags, noise levels and option values",
    "Tests check shapes and fixed option settings.",
    [GP],
    [("_get_training_data, _get_gp_training_options, reupdate_gp", GP)],
)
prop(
    "C28",
    "The log-joint is log-likelihood plus log-prior, with noise passed through",
    "When a prior is given as a separate function or object the evaluated log-joint is exactly the log-likelihood plus the log-prior at the same point, and with a noisy likelihood the reported noise is exactly the likelihood's; without a prior the target is used unchanged. Priors of another dimension, or contradicting a second way of giving them, are refused.",
    ["inputs", "configurations"],
    "all points, likelihood and prior values, with and without noise",
    "Tests evaluate a few targets.",
    [VB],
    [("VBMC._init_log_joint", VB)],
)
prop(
    "C29",
    "Importance weights are non-negative, normalised and follow their definition",
    "Importance-sampling weights used for the variance-based acquisitions are the ratio of base density to the density of the proposal that produced the points (smoothed posterior and boxes around the training points, or the chain), are non-negative and sum to one; MCMC chains start, inside their bounds, from points resampled by weight; kernel quantities prepared for the acquisition belong to the importance points. "
    "The effective sample fraction follows Kish's formula and lies in (0, 1]; posterior and surrogate are left unchanged.",
    ["inputs"],
    "all log-weights, densities and predictive moments",
    "Tests run end-to-end on a seed.",
    [IS],
    [("active_importance_sampling, fess", IS)],
)
prop(
    "C30",
    "Timers report elapsed time per name",
    "A timer reports the total time between its starts and their stops, unaffected by other timers, by starting a running timer, by stopping one that is not running and by reads; a timer that was never stopped is reported as absent, and a reset forgets everything.",
    ["histories", "schedules"],
    "all interleavings of starts, stops and reads with arbitrary clock readings",
    "Tests use one sequence with real time.",
    [R + "timer/timer.py"],
    [("Timer", R + "timer/timer.py")],
)
prop(
    "C31",
    "Saving and loading a posterior or run restores an equivalent object",
    "A posterior or run written to a file and read back is equivalent to the original, and an existing file is never overwritten unless asked for.",
    ["inputs", "fault_sequences"],
    "all objects and file-system states",
    "Tests save one object.",
    [VP, VB],
    [("save / load", VP)],
)
prop(
    "C32",
    "Estimates converge to the true posterior and evidence",
    "For targets within the documented class, the returned lower bound and posterior approximate the true log-evidence and posterior within the reported uncertainty.",
    ["inputs", "schedules"],
    "all targets of the class and all seeds",
    "Tests run a few seeded problems.",
    [VB],
    [("VBMC.optimize", VB)],
)

prop(
    "C33",
    "The reported mode is the best point found for the current posterior",
    "mode() returns a point of the requested space whose density is at least that of every starting sample, every component mean and every optimisation result, within the hard bounds in the original space; it neither changes the posterior nor is a mode computed before a change of the parameters reported afterwards, and changing the returned array does not change what is reported next.",
    ["inputs", "histories"],
    "all mixtures, samples and optimiser outcomes, for small sizes",
    "Tests compare two fixed posteriors.",
    [VP],
    [("VariationalPosterior.mode", VP)],
)


CLAIMED = {}
NA = {}
exec(open(os.path.join(HERE, "tools", "claims.py")).read())


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["id"]
            f.write(json.dumps(p) + "\n")
    checks, na = [], []
    for p in P:
        i = p["id"]
        if i in CLAIMED:
            checks.append(
                dict(
                    property=i,
                    quick_cmd=f"./run.sh {i} quick",
                    thorough_cmd=f"./run.sh {i} thorough",
                    technique=CLAIMED[i].get("technique", "bounded symbolic execution of the real Python/numpy code, z3"),
                    level="model_checking",
                    level_note=CLAIMED[i]["note"],
                )
            )
        else:
            na.append(dict(property=i, reason=NA.get(i, "no check built yet")))
    m = dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na,
             notes="Symbolic engine in symex/, one module per property in checks/. See DESIGN.md.")
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)


main()
