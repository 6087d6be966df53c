#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=list(over), text=qtext), why_tests_cant=why,
                  anchors=dict(files=list(files),
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mech],
                               observe_at=list(observe), hook_needed=None)))

p("C01", "With box bounds the objective only ever sees points inside the box",
  "When box bounds are given, every point handed to the user's objective or gradient function lies within the bounds in every coordinate, up to the floating-point rounding of linear scaling. "
  "This holds for every algorithm, starting point, step-size and option (gradient, expected distance to minimum, elitism, uncertainty handling, restarts, parallel evaluation, profile likelihood), with and without linear scaling. "
  "The points reported back in user space (best, best seen, worst seen, mean) lie within the bounds too.",
  ["inputs", "configurations", "histories"],
  "all boxes with finite lower<upper bounds, starts in or far outside the box, step-sizes from 1e-6 to 1e6 times the box, objectives, algorithms, options, seeds",
  "The tests run one bounded example each on a single box; the domain of boxes, step-sizes and option combinations is unbounded and a violation needs e.g. a sample many periods away or an option that perturbs a point after the transform.",
  ["src/pwq_bound_strategy.cc", "include/libcmaes/genopheno.h", "src/esostrategy.cc", "src/cmastrategy.cc", "src/errstats.cc"],
  [("quadratic reflection into the box", "pwqBoundStrategy::to_f_representation/shift_into_feasible"), ("phenotype conversion before evaluation", "CMAStrategy::optimize, ESOStrategy::eval"),
   ("finite differences clipped at the upper bound", "ESOStrategy::gradf"), ("re-evaluation of perturbed candidates", "ESOStrategy::select_candidates_uh")],
  ["arguments of the user's objective and gradient", "best_candidate/get_best_seen_candidate/get_worst_seen_candidate in phenotype"])

p("C02", "Genotype/phenotype transforms are exact, consistent and invertible",
  "For every bounds, scaling and custom transform object: a feasible user-space point converted to internal space and back is unchanged up to rounding; internal points inside the box and away from its bounds are left unchanged by the bound transform, which never expands distances and covers the whole box; linear scaling is the stated affine map. "
  "Converting a set of points gives, for any number of points, exactly what converting them one by one gives. "
  "Dropping any set of coordinates from a transform leaves the transform of the remaining coordinates unchanged.",
  ["inputs", "configurations"],
  "all boxes, scalings, shifts, invertible custom transforms, dimensions, points and sets of coordinates to drop, populations from 1 to several hundred points",
  "ut-scaling/pwq examples check a few fixed points; the transforms are piecewise functions of arbitrary reals with periodic extension, and the matrix versions switch to threads at 100 columns.",
  ["include/libcmaes/genopheno.h", "include/libcmaes/scaling.h", "src/pwq_bound_strategy.cc", "include/libcmaes/noboundstrategy.h", "include/libcmaes/eo_matrix.h"],
  [("piecewise linear/quadratic bound transform and inverse", "pwqBoundStrategy"), ("affine scaling", "linScalingStrategy"), ("composition and matrix variants", "GenoPheno::pheno/geno"), ("coordinate removal", "remove_dimensions")],
  ["GenoPheno::pheno", "GenoPheno::geno", "GenoPheno::remove_dimensions"])

p("C03", "Same seed and settings give the same run, threads or not",
  "Two runs with the same explicit non-zero seed, fixed start point, settings and deterministic objective evaluate exactly the same points in the same order of iterations and return the same result, whatever ran earlier in the process, whether or not output, progress or plotting is on, and (up to the order of calls within an iteration) whether or not objective evaluation is parallel. "
  "This covers all algorithms, including the restarting ones, and uncertainty handling. "
  "Different seeds give different samples.",
  ["inputs", "configurations", "histories", "schedules"],
  "all algorithms, options, dimensions, seeds, prior histories of other runs in the process, thread schedules of parallel evaluation",
  "No test compares two runs; tests use default (time) seeds.",
  ["include/libcmaes/eigenmvn.h", "include/libcmaes/parameters.h", "src/cmastrategy.cc", "src/esostrategy.cc", "src/bipopcmastrategy.cc", "src/cmasolutions.cc"],
  [("seeding of the sampler at construction", "CMAStrategy::CMAStrategy, EigenMultivariateNormal"), ("seeding of restart and re-evaluation randomness", "BIPOPCMAStrategy, ESOStrategy"), ("parallel loop over candidates", "ESOStrategy::eval")],
  ["sequence of objective calls", "returned solution object"])

p("C04", "Evaluation and iteration counts are exact and budgets are respected",
  "The number of evaluations reported equals the number of times the user's objective was called, at every iteration and at the end, including the calls made for numerical gradients, initial values, expected distance to minimum, re-evaluations and elitist restarts; for restarting algorithms this holds per run and the per-run counts add up. "
  "A run performs at most the requested number of iterations, and after its first iteration starts no further one once the number of evaluations of the run has reached the requested maximum. "
  "An incremental-population restart is not started once the total has reached the maximum.",
  ["inputs", "configurations"],
  "all algorithms, options, objectives, population sizes, budgets (including 1 and exact multiples of the population size)",
  "Tests only look at final objective values; budgets are never compared with call counts.",
  ["src/esostrategy.cc", "src/cmastrategy.cc", "src/cmastopcriteria.cc", "src/ipopcmastrategy.cc", "src/bipopcmastrategy.cc"],
  [("evaluation counter", "ESOStrategy::update_fevals"), ("budget criteria", "CMAStopCriteria maxFEvals/maxIter"), ("restart budget test", "IPOPCMAStrategy::optimize")],
  ["fevals()/niter() of the solution in the progress function and on return", "count of objective calls"])

p("C05", "Reported candidates are real: evaluated points with their true values",
  "Every candidate reported (best of the last iteration, best seen, worst seen, and each member of the current population) is a point that was actually evaluated in that run, paired with the value the objective returned for it (negated when maximising). "
  "The best candidate is the best of the last iteration's population, the population is in increasing order, and best seen and worst seen are the extremes over everything the run evaluated as candidates (worst seen is only required without elitism). "
  "This excludes runs with uncertainty handling as far as ordering is concerned.",
  ["inputs", "configurations", "histories"],
  "all algorithms, objectives (multimodal, plateaus, ties, noisy), bounds, scalings, elitism modes, population sizes, iteration numbers",
  "Tests check the final value against a tolerance on easy functions, not the pairing of point and value nor the extremes over the whole history.",
  ["src/cmasolutions.cc", "include/libcmaes/cmasolutions.h", "src/esostrategy.cc", "src/cmastrategy.cc", "include/libcmaes/candidate.h"],
  [("candidate bookkeeping", "ESOStrategy::eval"), ("sorting and history of bests", "CMASolutions::sort_candidates/update_best_candidates"), ("elitist re-injection", "ESOStrategy::eval")],
  ["best_candidate, get_best_seen_candidate, get_worst_seen_candidate, candidates() in every progress call and on return"])

p("C06", "Fixed parameters keep their value in every evaluation",
  "A parameter frozen to a value has that value (up to rounding of linear scaling) in every candidate the objective is asked to evaluate and in every reported solution; with box bounds this is for values in the part of the box that the bound transform leaves unchanged, and with a custom transform the objective sees the image of the frozen value. "
  "Freezing again with another value replaces the first, unfreezing makes the parameter vary again, and the other parameters are still optimised.",
  ["inputs", "configurations", "histories"],
  "all algorithms, any proper subset of the coordinates, any values, any sequence of freeze/unfreeze calls, bounds, scalings, gradient and two-point adaptation",
  "No stable test freezes parameters over a run and looks at the evaluated points.",
  ["include/libcmaes/parameters.h", "src/cmaparameters.cc", "src/cmastrategy.cc", "src/cmasolutions.cc"],
  [("reset of frozen rows in sampled populations", "CMAStrategy::ask"), ("initial mean", "CMASolutions::CMASolutions"), ("freeze table", "Parameters::set_fixed_p/unset_fixed_p")],
  ["arguments of the objective", "candidates of the solution"])

p("C07", "Each iteration updates the distribution by the published equations",
  "After every iteration the mean, step-size and covariance are those prescribed by the published CMA-ES, active CMA-ES, separable and VD-CMA equations with their default strategy constants for the given dimension and population size, computed from the evaluated population and the previous state. "
  "Only the ranking of the population enters the update.",
  ["inputs", "histories", "configurations"],
  "dimensions 1..20, population sizes 2..60, algorithm families, populations with arbitrary rankings, any number of iterations, frozen parameters, two-point adaptation, scaling and bounds",
  "Tests only see that easy functions converge; a wrong constant, weight or missing term usually still converges.",
  ["src/covarianceupdate.cc", "src/acovarianceupdate.cc", "src/vdcmaupdate.cc", "src/cmaparameters.cc", "src/esostrategy.cc"],
  [("rank-one/rank-mu, evolution paths, step-size", "CovarianceUpdate/ACovarianceUpdate/VDCMAUpdate::update"), ("strategy constants", "CMAParameters::initialize_parameters/set_sep/set_vd/set_tpa/set_noisy")],
  ["xmean(), sigma(), cov()/sepcov()/full_cov() after tell()"])

p("C08", "Candidates are sampled from the current search distribution",
  "Candidates proposed at any iteration are independent draws from the multivariate normal distribution with the current mean and the current step-size times covariance (under lazy updates, the covariance of the last decomposition), except the slots documented as injected (gradient, two-point adaptation, frozen coordinates). "
  "The injected gradient and two-point candidates are where their definitions put them.",
  ["inputs", "histories", "configurations"],
  "all algorithm families, dimensions, seeds, states reached after any number of iterations on any objective, lazy update on and off",
  "No test looks at the distribution of proposals; convergence on easy functions tolerates a wrong centre or spread.",
  ["src/cmastrategy.cc", "include/libcmaes/eigenmvn.h"],
  [("sampling", "CMAStrategy::ask, EigenMultivariateNormal::samples/samples_ind")],
  ["matrix returned by ask()", "xmean(), sigma(), full_cov()"])

p("C09", "The search depends only on ranks; maximising f is minimising -f",
  "Replacing the objective by any strictly increasing function of it leaves the sequence of evaluated points unchanged as long as no value-based termination triggers. "
  "Maximising f evaluates the same points as minimising -f and reports the negated values. "
  "Scaling the start and step-size, or shifting the start, together with the objective, scales or shifts the evaluated points (shifts up to rounding; numerical gradients and uncertainty handling aside, and small-population restarts, whose step-size is absolute, aside for scaling).",
  ["inputs", "configurations", "histories"],
  "all algorithms, objectives, increasing transforms, scale factors, shifts, dimensions, seeds, starting from scratch or from a previous solution",
  "Invariance relates two runs; tests look at single runs.",
  ["src/esostrategy.cc", "src/cmastrategy.cc", "src/covarianceupdate.cc", "src/acovarianceupdate.cc", "src/vdcmaupdate.cc", "src/cmasolutions.cc"],
  [("rank-based selection", "CMASolutions::sort_candidates + updates"), ("negation wrapper", "ESOStrategy::ESOStrategy")],
  ["sequence of objective calls", "returned solution"])

p("C10", "Runs stop exactly when a stopping rule holds, and report which",
  "A run stops at the first iteration (after the first) at which an active stopping rule holds, and the status code and message it returns name a rule that holds in the final state, errors first; a rule that has been switched off never ends a run, and a switched-on rule is never ignored. "
  "Rules for target value, evaluation and iteration budgets, function-value tolerance, equal values, automatic iteration limit, stagnation, condition number and step-size explosion follow their documented definitions, the target being compared with the value as reported. "
  "A non-zero return of the user's progress function ends the run at once.",
  ["inputs", "configurations", "histories"],
  "all objectives (converging, flat, unbounded, plateaued), algorithms, tolerances, targets, budgets, subsets and orders of switching rules on and off",
  "Tests accept any success status and never switch rules off; which rule fires first on an arbitrary history is not sampled.",
  ["src/cmastopcriteria.cc", "src/cmastrategy.cc", "include/libcmaes/cmaparameters.h", "include/libcmaes/cmasolutions.h"],
  [("ordered criteria map", "CMAStopCriteria::stop"), ("criteria switches", "CMAParameters::set_stopping_criteria, CMAStrategy ctor"), ("progress function", "CMAStrategy::stop")],
  ["run_status(), status_msg(), niter(), return code of optimize()"])

p("C11", "A manual ask/evaluate/tell loop is the same search as optimize()",
  "Driving an optimiser by hand - ask for candidates, evaluate them, tell, increment, until it says stop - or passing custom ask/evaluate/tell functions that delegate to it, evaluates the same points and ends in the same state as running it to completion. "
  "Asking twice without telling leaves mean, step-size and covariance unchanged.",
  ["histories", "inputs", "configurations"],
  "all single-run algorithms, options, transforms, objectives, seeds, interleavings of read-only queries",
  "The sample programs show the loop on one example; no test relates it to optimize().",
  ["src/cmastrategy.cc", "src/esostrategy.cc", "include/libcmaes/esoptimizer.h", "include/libcmaes/cmaes.h"],
  [("optimize loop", "CMAStrategy::optimize"), ("dispatch on algorithm", "cmaes()")],
  ["sequence of objective calls", "solution state"])

p("C12", "A transform only changes what the objective sees, not the search",
  "Optimising f through any genotype/phenotype transform (custom, bounds, scaling) produces the same internal search as optimising, without a transform, the composition of f with that transform from the corresponding internal start. "
  "The user-space image of every reported candidate is the point at which its value was obtained.",
  ["inputs", "configurations"],
  "all transforms, algorithms, objectives, dimensions, seeds",
  "Relates two runs; tests with bounds and scaling look only at the final value.",
  ["src/cmastrategy.cc", "src/esostrategy.cc", "include/libcmaes/genopheno.h", "src/cmasolutions.cc"],
  [("phenotype conversion around evaluation", "CMAStrategy::optimize"), ("scaling of the start", "CMASolutions::CMASolutions")],
  ["sequence of objective calls", "candidates in genotype"])

p("C13", "Elitism re-injects the reference point and never loses it",
  "With elitism, in every iteration after the first in which fewer than half of the candidates improve on the reference point (the best seen for mode 1, the start for mode 2), that point with its value is part of the population used for the update, and no candidate better than it is dropped. "
  "The best seen is never worse than the start point when elitism is on, and mode 3 restarts from the best seen point when the run ended elsewhere, never returning a worse best seen. "
  "With elitism off, nothing is re-injected.",
  ["inputs", "histories", "configurations"],
  "objectives with rare improvements, algorithms, population sizes, bounds, scaling, modes and sequences of mode changes",
  "No test uses elitism.",
  ["src/esostrategy.cc", "src/cmastrategy.cc", "include/libcmaes/cmaparameters.h"],
  [("re-injection", "ESOStrategy::eval"), ("initial candidate and restart", "CMAStrategy::optimize"), ("mode flags", "CMAParameters::set_elitism")],
  ["candidates(), get_best_seen_candidate() in each iteration"])

p("C14", "Settings take effect as written: last write wins, names match codes",
  "After any sequence of setter calls, every getter returns the last value set for that setting and no other setting changes; documented algorithm names select the algorithm of that name; unspecified population size and seed get their documented defaults, and seed zero asks for a fresh seed. "
  "The run itself follows the last settings: two different sequences of calls ending in the same settings give the same run.",
  ["histories", "configurations"],
  "all sequences of setter calls with arbitrary values on all parameter classes",
  "Tests set each option at most once in one order.",
  ["include/libcmaes/parameters.h", "include/libcmaes/cmaparameters.h", "src/cmaparameters.cc"],
  [("setters and getters", "Parameters, CMAParameters"), ("name table", "Parameters::_algos")],
  ["getters", "traces of runs"])

p("C15", "Profile likelihood and contour points are true constrained minima",
  "Every point of a profile-likelihood curve and every constrained minimum has the frozen coordinates at the requested values, reports the objective value actually taken there, and is a minimum over the remaining coordinates as far as the search it is made with converges; the reported interval contains the optimum and its ends correspond to the increase asked for when the search reports success. "
  "Contour points lie on the level set asked for on well-behaved (convex, growing, comparably scaled) objectives with the level inside the box, for either order of the two parameters.",
  ["inputs", "configurations"],
  "convex objectives of any conditioning and correlation, dimensions 2..6, any parameter pair, levels, bounds, scalings, numbers of points",
  "ut-errstats checks one function with fixed numbers.",
  ["src/errstats.cc", "include/libcmaes/errstats.h", "include/libcmaes/pli.h", "include/libcmaes/contour.h"],
  [("line search plus constrained minimisation", "errstats::profile_likelihood/optimize_pk/optimize_vpk"), ("contour crossing", "errstats::contour_points/cross")],
  ["pli, contour and CMASolutions objects returned"])

p("C16", "Surrogate-assisted runs stay truthful and within their definitions",
  "With a surrogate, the number of reported evaluations equals the calls of the true objective, the training set holds only truly evaluated points with their true values and never exceeds its set size, the model error is a ranking error in [0,1], and with exploitation off the search is the plain one (uncertainty handling, two-point adaptation, elitism and gradients are not combined with an exploited model). "
  "The built-in ranking model is trained and queried only on well-formed data, ranks strictly separable data correctly, and its error is 0 for a perfect and 1 for a reversed ranking.",
  ["inputs", "configurations", "histories"],
  "objectives, dimensions, population sizes, model lifelengths, training-set sizes, custom and built-in models, algorithms",
  "surr-tests runs one function to convergence.",
  ["src/surrogatestrategy.cc", "include/libcmaes/surrogatestrategy.h", "include/libcmaes/surrogates/rankingsvm.hpp", "include/libcmaes/surrogates/rsvm_surr_strategy.hpp"],
  [("training set and error", "SurrogateStrategy"), ("lifelength scheme", "SimpleSurrogateStrategy"), ("pre-selection", "ACMSurrogateStrategy"), ("ranking SVM", "RankingSVM")],
  ["arguments of custom train/predict functions", "errors, counters, objective calls"])

p("C17", "Restart strategies run the announced schedule and return the best run",
  "An incremental-population run makes at most the requested number of runs, each starting afresh (start point, initial step-size, identity covariance) with exactly twice the previous population; the two-regime variant alternates such runs with small-population runs within its limits. "
  "The solution returned is that of the run with the best final value, and each run uses the strategy constants of its own population size and algorithm family.",
  ["inputs", "configurations", "histories"],
  "restarting algorithms of all families, objectives (including ones where later runs are worse), numbers of restarts, population sizes, budgets, seeds",
  "Tests look at the final value only.",
  ["src/ipopcmastrategy.cc", "src/bipopcmastrategy.cc", "src/cmaparameters.cc"],
  [("restart loop", "IPOPCMAStrategy/BIPOPCMAStrategy::optimize"), ("population growth", "lambda_inc, r1, r2"), ("best run", "capture_best_solution")],
  ["progress function: population size, sigma, mean, iteration; returned solution"])

p("C18", "Uncertainty handling re-evaluates and re-ranks by its definition",
  "With uncertainty handling on, each iteration re-evaluates the prescribed number of candidates at slightly perturbed points, the population remains a permutation of the evaluated candidates ordered by the sum of the two ranks (ties in any order), and on a noise-free objective whose ranks are stable the order is the plain one. "
  "The step-size gets the extra increase exactly when the measured uncertainty is positive.",
  ["inputs", "histories", "configurations"],
  "noisy and noise-free objectives with ties, dimensions, population sizes, bounds, scaling, seeds",
  "No stable test switches it on.",
  ["src/esostrategy.cc", "src/cmastrategy.cc", "include/libcmaes/candidate.h"],
  [("selection, re-evaluation, rank sums", "ESOStrategy::select_candidates_uh/eval_candidates_uh/uncertainty_handling"), ("step-size increase", "CMAStrategy::tell")],
  ["objective calls", "candidates() after tell", "sigma()"])

p("C19", "Starting from a previous solution continues from it under the same rules",
  "A search started from a previous solution samples around that solution's mean with its step-size and a fresh covariance, counts evaluations and iterations from zero, never reports a best seen worse than the previous one's, and honours every setting (maximisation, switched-off stopping rules, budgets, output) as a fresh search does, the transform and dimension being those of the previous one.",
  ["inputs", "histories", "configurations"],
  "chains of runs, algorithms, objectives, settings changed between the runs",
  "No stable test restarts from a solution object.",
  ["src/esostrategy.cc", "src/cmastrategy.cc", "src/cmasolutions.cc", "include/libcmaes/cmaes.h"],
  [("constructor from a solution", "ESOStrategy/CMAStrategy ctor, start_from_solution"), ("state reset", "CMASolutions::reset")],
  ["objective calls", "returned solution"])

p("C20", "No valid use of the API corrupts memory or hits undefined behaviour",
  "No sequence of valid API calls - constructing parameters and transforms, setting options, optimising with any algorithm, manual loops, copying and querying solutions, profile likelihood, surrogates, writing plots - performs an out-of-bounds or uninitialised access, a mis-sized matrix operation, signed overflow or an endless loop.",
  ["inputs", "histories", "configurations"],
  "all sequences of API calls with valid arguments, objectives returning any finite or infinite value",
  "Tests run release builds with assertions off on a handful of configurations.",
  ["src", "include/libcmaes"],
  [("all", "whole library")],
  ["process under address and undefined-behaviour sanitizers with matrix assertions on"])

p("C21", "The Python bindings compute the same thing as the C++ library",
  "For the same problem, settings and seed, the Python bindings evaluate the same points and return the same solution as the C++ interface, and each accessor returns the value of the C++ accessor it names.",
  ["inputs", "configurations"],
  "all algorithms and transforms exposed, dimensions, bounds, seeds, settings",
  "The Python scripts in the repository print results without checking them.",
  ["python/lcmaes.cc", "python/py_boost_function.hpp", "python/lcmaes_interface.py"],
  [("boost.python wrappers", "python/lcmaes.cc")],
  ["return values of module functions", "arguments of the Python objective"])

p("C22", "Reported statistics describe the final distribution",
  "In every reachable state the covariance is symmetric, the step-size is positive, and the covariance is positive semi-definite (for active updates: with strategy constants within the published bound of the negative update and no lazy updates), and the reported full covariance, correlations, standard deviations, errors, eigenvalues and eigenvectors, inverse square root and extreme eigenvalues are consistent with it (the last four with the covariance the last population was drawn from) and with each other (correlations in [-1,1] with unit diagonal, standard deviations mapped to user space). "
  "The data written to the output file, one line per iteration, are those of the states passed to the progress function.",
  ["inputs", "histories", "configurations"],
  "all algorithm families, dimensions, objectives, bounds and scalings, any iteration",
  "Tests never read these values nor the output file.",
  ["include/libcmaes/cmasolutions.h", "src/cmasolutions.cc", "src/cmastrategy.cc"],
  [("derived statistics", "CMASolutions::stds/errors/corr/full_cov"), ("eigen bookkeeping", "CMASolutions::update_eigenv"), ("file output", "CMAStrategy::plot")],
  ["accessors in the progress function and on return", "output file"])

p("C23", "Numerical gradients and expected distance to minimum are right",
  "The gradient used when none is supplied is, for smooth objectives, the derivative of the objective at the mean in user space within finite-difference accuracy, also at and near the bounds and under scaling; a supplied gradient is used as is. "
  "The expected distance to minimum reported is the documented function of that gradient, the transform's derivative and the final distribution, for every algorithm and population of more than two.",
  ["inputs", "configurations"],
  "smooth objectives with known gradients, points, bounds, scalings, algorithms, dimensions",
  "edm.cc prints values; nothing checks them.",
  ["src/esostrategy.cc", "src/cmastrategy.cc"],
  [("finite differences", "ESOStrategy::gradf/gradgp"), ("edm", "ESOStrategy::edm")],
  ["gradf(), gradgp(), edm()"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for q in P:
        f.write(json.dumps(q) + "\n")
print(len(P))
