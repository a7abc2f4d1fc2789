#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (one JSON object per line)."""
import json, os
IC = "incremental_calibration/"
INC = IC + "include/aslam/calibration/"
SRC = IC + "src/"
EX = "incremental_calibration_examples/incremental_calibration_examples_"
P = []

def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
            "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
            "observe_at": list(observe), "hook_needed": hook}})

# ---------------------------------------------------------------- the incremental estimator
p("C01", "A batch is kept exactly when the decision rule says so, and results match it",
  "Adding a batch to the incremental estimator keeps it exactly when one of these holds: it was forced, it is the first batch to give a result, the numerical rank of the calibration parameters is higher than that of the kept batches, or the information gain (half the difference of the summed log2 singular values with and without it) exceeds the configured threshold; with validity checking on, an unforced batch is moreover dropped when the optimizer used all its iterations or did not lower the cost. "
  "Every figure of the return value (accepted, rank, rank deficiency, information gain, costs, iterations, singular values, null and column spaces, covariances) describes the candidate just solved. "
  "Between calls, every figure and matrix the estimator reports describes the problem made of the batches it currently holds.",
  ["histories", "inputs", "configurations"],
  "Every sequence of add (forced or not) / remove / re-optimize, for every solver outcome (rank up, equal, down; gain above, at, below the threshold; cost down, equal, up; iterations below or at the limit), every threshold and validity setting.",
  "The repository has no test of the estimator at all (it needs the whole optimizer stack to link); a handful of batches could not reach the cross product of solver outcomes, options and earlier history.",
  [SRC+"core/IncrementalEstimator.cpp", INC+"core/IncrementalEstimator.h"],
  [("accept/reject rule in addBatch", SRC+"core/IncrementalEstimator.cpp"), ("statistics update on accept", SRC+"core/IncrementalEstimator.cpp")],
  [("stored singular values / rank / gain", "reference the next candidate is compared with", SRC+"core/IncrementalEstimator.cpp")],
  ["return values of add, remove and reoptimize", "getters of the estimator"])

p("C02", "A rejected batch leaves no trace",
  "When the estimator rejects a batch, or the optimizer or solver gives one up with an error, every design variable, of the batches it holds and of the rejected one, is back at exactly the value it had before the call, and so are the list of batches, the groups, the order of variables inside each group, the ordering of groups and all reported statistics, scalings, spaces and covariances. "
  "Continuing with any further batches gives the same decisions and the same estimates as if the rejected batch had never been offered.",
  ["histories", "inputs"],
  "Every history of kept and rejected batches, with batches that share variables with earlier ones, bring new variables, reorder groups, make the solver stop early, or end in an error at any point of the solution.",
  "No test exercises the estimator; whether a rejection leaks state shows only by comparing whole later histories with and without the rejected batch.",
  [SRC+"core/IncrementalEstimator.cpp", SRC+"core/IncrementalOptimizationProblem.cpp"],
  [("save before solve, restore and remove on reject", SRC+"core/IncrementalEstimator.cpp"), ("variables' save/restore", SRC+"core/IncrementalOptimizationProblem.cpp")],
  [("saved design variables", "values to go back to", SRC+"core/IncrementalOptimizationProblem.cpp")],
  ["design-variable parameters, groups and getters before/after addBatch"])

p("C03", "The marginalized group is always last and the split falls on its first column",
  "Before every solve of the incremental estimator, the variables of the marginalized (calibration) group are ordered after all others, and the column at which the linear system is split is the total dimension of the active variables outside that group. "
  "An operation that would leave the estimator without that group fails with an error and changes nothing.",
  ["histories", "inputs"],
  "Every batch content: groups in any order, inactive variables, the calibration group in the middle, absent, or absent from the remaining batches after a removal.",
  "Not tested; a wrong split silently marginalizes the wrong variables and only shows with unusual group orders or inactive variables.",
  [SRC+"core/IncrementalEstimator.cpp", SRC+"core/IncrementalOptimizationProblem.cpp"],
  [("ensure marginalized group location", SRC+"core/IncrementalEstimator.cpp"), ("marginalized start index", SRC+"core/IncrementalEstimator.cpp")],
  [("groups ordering", "order in which variables become columns", SRC+"core/IncrementalOptimizationProblem.cpp")],
  ["column split given to the linear solver", "order of design variables during the solve"])

p("C04", "The incremental problem is the reference-counted union of its batches",
  "At any time the incremental problem contains exactly the distinct design variables and error terms of the batches it holds, each variable once however many batches share it, in its group, with groups listed in their current ordering, and every variable stays present until the last batch holding it is removed. "
  "Looking up a variable by global index or by group, asking for its error terms, its group, its dimension and membership all agree with one another. "
  "An operation that is refused (batch with an error term already present, variable in two groups, bad index, bad ordering, unknown variable, null) throws and leaves the whole container as it was. (Batches are not modified while the container holds them.)",
  ["histories", "inputs"],
  "Every history of add / remove by index or pointer / clear / reorder groups / reorder within a group, over overlapping batches, and every refused call interleaved.",
  "The existing container test (not even buildable here without the optimizer stack) walks one fixed history; reference counts and group bookkeeping fail only on specific overlaps and on failing calls.",
  [SRC+"core/IncrementalOptimizationProblem.cpp", INC+"core/IncrementalOptimizationProblem.h"],
  [("reference counts", SRC+"core/IncrementalOptimizationProblem.cpp"), ("group maps", SRC+"core/IncrementalOptimizationProblem.cpp")],
  [("design-variable counts", "number of batches holding a variable", SRC+"core/IncrementalOptimizationProblem.cpp")],
  ["public queries of the container"])

p("C05", "An optimization problem keeps its groups, order and members consistent",
  "In a single optimization problem each design variable belongs to one group, keeps insertion order within the group, and the flat index order is the concatenation of the groups in the current ordering; membership, group and dimension queries, the error-term list and the error terms of a variable agree with what was added. "
  "An error term one of whose design variables is not in the problem is refused, a reordering of groups or of variables inside a group permutes exactly that and is accepted only if it is a permutation, and a refused call throws and leaves the problem unchanged.",
  ["histories", "inputs"],
  "Every sequence of adding variables (any group id), adding error terms, reordering, permuting, clearing, and every refused call.",
  "The existing test walks one fixed sequence and cannot be built here; the consistency of five redundant views must hold after any history.",
  [SRC+"core/OptimizationProblem.cpp", INC+"core/OptimizationProblem.h"],
  [("groups and lookup sets", SRC+"core/OptimizationProblem.cpp")],
  [("groups ordering", "order of groups in the flat index", SRC+"core/OptimizationProblem.cpp")],
  ["public queries of the container"])

p("C06", "Save and restore of design variables round-trip exactly",
  "Restoring the design variables of a problem puts every variable that was in the problem at the time of the last save, and still is, back to exactly the parameters it had then, whatever updates, reverts or direct writes happened in between, and touches no other object. "
  "It stays safe and correct after variables were added, batches removed or the problem cleared between save and restore.",
  ["histories"],
  "Every interleaving of save, restore, update, set, add, remove, clear on both kinds of problem.",
  "Tests restore once right after one update; stale backups only show after a removal or clear between save and restore.",
  [SRC+"core/OptimizationProblem.cpp", SRC+"core/IncrementalOptimizationProblem.cpp"],
  [("backup of parameters", SRC+"core/IncrementalOptimizationProblem.cpp")],
  [("backup map", "saved parameter values per variable", SRC+"core/IncrementalOptimizationProblem.cpp")],
  ["parameters of the design variables"])

p("C07", "Estimates and information do not depend on how or when the data was batched",
  "For linear problems, the calibration estimate, the marginal rank, singular values, covariances and information the estimator ends with depend only on the set of batches it holds: not on how measurements were split into batches, on the order of adding, on offers that were rejected, or on batches added and removed again. "
  "They agree with a direct dense solution of the whole least-squares problem, including when some calibration directions are unobservable.",
  ["histories", "inputs"],
  "Random linear-Gaussian calibration problems, full rank and rank deficient, split and ordered every which way, with removals and re-optimizations in between.",
  "The only way to exercise it is a whole estimation pipeline over many equivalent histories; the repository has no such test.",
  [SRC+"core/IncrementalEstimator.cpp", SRC+"core/IncrementalOptimizationProblem.cpp", "aslam_tsvd_solver/src/aslam-tsvd-solver.cc"],
  [("marginal analysis of the batch", SRC+"core/IncrementalEstimator.cpp"), ("solver wrapper", "aslam_tsvd_solver/src/aslam-tsvd-solver.cc")],
  [],
  ["getters of the estimator and parameters of design variables"])

p("C08", "permute applies a permutation exactly, and refuses anything else unchanged",
  "Permuting a container by a list of indices yields, at each position i, the element that was at position indices[i], for any element type and any index type and any permutation, losing and duplicating nothing. "
  "An index list that is not a permutation of the positions (wrong length, out of range, negative, repeated) is refused with an out-of-bounds error, in finite time, and leaves the container unchanged.",
  ["inputs"],
  "All permutations of small sizes exhaustively, random large ones, all index lists of small sizes, several element and index types.",
  "The existing test permutes a single vector once; cycle structure and malformed lists are what break it.",
  [INC+"algorithms/permute.h", INC+"algorithms/permute.tpp"],
  [("in-place cycle walk", INC+"algorithms/permute.tpp")], [],
  ["the permuted vector"])

p("C09", "Log-determinant and column checks of the R factor are exact",
  "The summed log2 of the magnitudes of the diagonal of a factor over an inclusive column range is the sum over exactly the diagonal entries of that range that are not numerically zero, whatever lies off the diagonal or outside the range, for dense and sparse matrices alike. "
  "A range whose start lies after its end, or that reaches past the columns, is refused with an out-of-bounds error.",
  ["inputs"],
  "Random sparse upper-triangular matrices of any size and pattern (missing, tiny, negative, huge diagonal entries), all column ranges.",
  "The existing test compares one dense-like matrix; missing diagonal entries and partial ranges are what differ.",
  [INC+"algorithms/matrixOperations.h", INC+"algorithms/matrixOperations.tpp"],
  [("diagonal sum", INC+"algorithms/matrixOperations.h")], [], ["return value"])

# ---------------------------------------------------------------- data structures
p("C10", "A grid partitions its box: every point maps to its one cell and back",
  "A grid over a box has, per dimension, the number of cells its range and resolution require, and every point inside the box has exactly one valid index, whose cell contains it; the centre of a cell maps back to that cell, index and linear index convert to one another without loss, and walking the indices visits every cell exactly once. "
  "Reads and writes through coordinates, index and linear position reach the same cell and no other, and a point or index outside the grid (including negative and not-a-number ones), or a constructor range or resolution that makes no sense, is refused with an error.",
  ["inputs", "configurations"],
  "Any dimension 1..4, ranges, resolutions that do or do not divide the range, integer and floating coordinates, points on cell borders, at the box corners, outside, and not finite.",
  "There is no test of the grid; boundary points, rounding and negative indices cannot be sampled by hand.",
  [INC+"data-structures/Grid.h", INC+"data-structures/Grid.tpp"],
  [("index from coordinates", INC+"data-structures/Grid.tpp"), ("linear index", INC+"data-structures/Grid.tpp")],
  [("linear array of cells", "cell storage", INC+"data-structures/Grid.h")],
  ["public methods of the grid"])

p("C11", "A histogram counts every sample once and its statistics match the counts",
  "After any sequence of samples each bin holds exactly the number of samples that fell in it, samples outside the range change nothing, and the sum is the number of samples counted. "
  "Mean, mode, median (the centre of the first bin at which half of the samples are reached), unbiased variance or covariance and the normalized histogram equal the ones computed from the bin centres and counts, and copies are independent.",
  ["inputs", "histories"],
  "Random sample streams in one and several dimensions, integer and floating, concentrated on bin borders, inside and outside the range.",
  "There is no test of histograms; the statistics are templates nothing in the repository instantiates.",
  [INC+"statistics/Histogram1v.tpp", INC+"statistics/HistogramMv.tpp", INC+"statistics/Histogram1v.h", INC+"statistics/HistogramMv.h"],
  [("add sample", INC+"statistics/Histogram1v.tpp"), ("moments over bins", INC+"statistics/HistogramMv.tpp")], [],
  ["public methods of the histogram"])

p("C12", "Rigid transformations form a group and match their parameters",
  "A 2d or 3d rigid transformation built or set from pose parameters or from a matrix maps points as the rotation (yaw, or roll-pitch-yaw about fixed axes) followed by the translation, and its matrix is that homogeneous matrix with an orthonormal rotation part. "
  "Transforming with a transformation and then with its inverse gives the point back, inverting twice gives the original, in place and out of place agree, and this holds after any sequence of setting and inverting.",
  ["inputs", "histories"],
  "Any angles (including multiples of a right angle, beyond a full turn) and translations, any sequence of set / set matrix / inverse / get inverse / copy / transform.",
  "There is no test of the transformations; double inversion or matrix-set objects only break in sequence.",
  [INC+"geometry/Transformation2d.tpp", INC+"geometry/Transformation3d.tpp", INC+"geometry/Transformation2d.h", INC+"geometry/Transformation3d.h"],
  [("matrix build and inverse", INC+"geometry/Transformation3d.tpp")],
  [("matrix and the rotation/translation parts", "must agree", INC+"geometry/Transformation3d.h")],
  ["transformed points and the matrix"])

# ---------------------------------------------------------------- statistics
p("C13", "Density, log-density, cumulative and quantile of each distribution agree",
  "For every distribution offered (normal in one and several dimensions, uniform continuous and discrete in one and several dimensions, gamma, chi-square) density is non-negative, zero outside the support, equals the exponential of the log density and the mathematical definition, and sums or integrates to one; the cumulative function is the integral of the density, runs monotonically from zero to one, and where a quantile function exists it inverts it. "
  "These hold for extreme parameters and arguments, including the far tails, without overflow or not-a-number.",
  ["inputs", "configurations"],
  "Random and extreme parameters and arguments for each distribution and dimension, differential against independent reference formulas.",
  "There is no test of the statistics library; agreement must hold over the whole parameter space.",
  [INC+"statistics/", SRC+"statistics/NormalDistribution1v.cpp", SRC+"statistics/ChiSquareDistribution.cpp"],
  [("pdf/logpdf/cdf", INC+"statistics/NormalDistributionMv.tpp"), ("pdf/logpdf/cdf", INC+"statistics/GammaDistribution.tpp"), ("pdf/cdf", INC+"statistics/UniformDistribution1v.tpp"), ("pdf/cdf", SRC+"statistics/NormalDistribution1v.cpp")], [],
  ["values of the public functions"])

p("C14", "Moments, divergences and distances are those of the distribution",
  "Mean, median, mode, variance or covariance of each distribution are those of its mathematical definition for its current parameters, wherever the support lies. "
  "The Kullback-Leibler divergence between two distributions of a family is the closed form, is zero for equal distributions and never negative beyond rounding; the squared Mahalanobis distance is the quadratic form of the inverse covariance.",
  ["inputs", "configurations"],
  "Random and extreme parameters for each family, with supports away from zero, negative, asymmetric and degenerate.",
  "There is no test of the moments, and a formula that is right for a support starting at zero is wrong elsewhere.",
  [INC+"statistics/UniformDistribution1v.tpp", INC+"statistics/UniformDistributionMv.tpp", INC+"statistics/GammaDistribution.tpp", INC+"statistics/NormalDistributionMv.tpp", SRC+"statistics/NormalDistribution1v.cpp", SRC+"statistics/ChiSquareDistribution.cpp"],
  [("closed forms", INC+"statistics/GammaDistribution.tpp")], [], ["values of the public functions"])

p("C15", "Distribution parameters are validated and cached values never go stale",
  "Invalid parameters (variance, shape, rate or degrees not positive or not a number; support whose minimum is not below its maximum; covariance not symmetric positive definite) are refused with a bad-argument error by constructor and setter alike, and a refused call leaves the object exactly as it was. "
  "After any sequence of valid setters, copies and assignments, every derived quantity (precision, standard deviation, determinant, normalizer, Cholesky factor, support area, and all function values) is the one of a freshly constructed object with the same parameters.",
  ["histories", "inputs"],
  "Every interleaving of valid and invalid constructions, setters, copies and assignments, on every distribution.",
  "There is no test; a stale cached term shows only after a particular setter order or a refused call.",
  [INC+"statistics/NormalDistributionMv.tpp", INC+"statistics/UniformDistribution1v.tpp", INC+"statistics/UniformDistributionMv.tpp", INC+"statistics/GammaDistribution.tpp", SRC+"statistics/NormalDistribution1v.cpp", SRC+"statistics/ChiSquareDistribution.cpp"],
  [("setters validate then recompute caches", INC+"statistics/NormalDistributionMv.tpp")],
  [("cached precision / normalizer / determinant / factor", "derived from the parameters", INC+"statistics/NormalDistributionMv.h")],
  ["getters and function values after each call"])

p("C16", "Samples lie in the support and follow their distribution",
  "Every draw of the random generator and of the distributions' sampling functions lies in the support, whatever value the underlying source returns (including its smallest and largest), and always terminates. "
  "Over many draws the empirical law agrees with the distribution asked for: uniform (continuous and discrete, both ends reachable), normal, categorical, Poisson, exponential, geometric, gamma, multivariate normal and uniform, including correlations.",
  ["inputs", "configurations", "schedules"],
  "Random and extreme parameters for every sampler, normal source and a scripted source returning extremes; goodness-of-fit at fixed seeds.",
  "There is no test of sampling; extremes of the source have probability one in two billion per draw.",
  [INC+"statistics/Randomizer.tpp", INC+"statistics/NormalDistributionMv.tpp", SRC+"statistics/NormalDistribution1v.cpp", INC+"statistics/UniformDistribution1v.tpp", INC+"statistics/UniformDistributionMv.tpp", INC+"statistics/GammaDistribution.tpp"],
  [("samplers", INC+"statistics/Randomizer.tpp")], [], ["drawn samples"])

p("C17", "Same seed, same samples",
  "After a generator is seeded with a value, the whole later sequence of draws of the program, through any sampler and any distribution, is a function of that seed and the calls made: repeating the same calls after the same seed repeats the samples exactly, and different seeds give different sequences. "
  "Creating further generators or distributions, and copying them, does not disturb the sequence.",
  ["inputs", "histories"],
  "Any seed and any interleaving of sampler calls, object creations and copies.",
  "There is no test of reproducibility, and it depends on what every sampler consumes.",
  [INC+"statistics/Randomizer.tpp", INC+"statistics/Randomizer.h"],
  [("seed and source", INC+"statistics/Randomizer.tpp")], [("seed", "last seed set", INC+"statistics/Randomizer.h")], ["drawn samples"])

p("C18", "Maximum-likelihood estimators give the batch estimate of exactly the points seen",
  "After any sequence of points and resets, the maximum-likelihood estimators of the normal distribution report the mean and (co)variance of exactly the points added since the last reset, whichever way the points were fed in and in whatever order, and their number; a batch given with responsibilities makes the estimate the weighted mean and (co)variance of that batch alone, until the next plain point. "
  "The estimate is flagged valid only if it defines a proper distribution, and degenerate or empty input never crashes or leaves a not-a-number estimate flagged valid.",
  ["histories", "inputs"],
  "Random point streams (any offset, scale, repeated points, too few points, empty ranges, zero weights) fed singly, by range, by container, weighted, with resets in between.",
  "There is no test of the estimators; cancellation and degenerate streams are what break them.",
  [SRC+"statistics/EstimatorMLNormal1v.cpp", INC+"statistics/EstimatorMLNormalMv.tpp", INC+"statistics/EstimatorMLNormal1v.h", INC+"statistics/EstimatorMLNormalMv.h"],
  [("running sums", SRC+"statistics/EstimatorMLNormal1v.cpp")],
  [("running values", "sums from which the estimate is formed", INC+"statistics/EstimatorMLNormal1v.h")], ["estimate, validity and point count"])

p("C19", "Special functions are accurate over their whole domain",
  "Log-factorial, log-gamma (scalar and multivariate), digamma and the lower and upper regularized incomplete gamma functions agree with an independent high-precision reference over their domains, satisfy their recurrences and complement relations, and are the same through every way of calling them. "
  "Changing a parameter of a function object changes exactly that parameter.",
  ["inputs"],
  "Dense and extreme arguments and parameters for each function, against an extended-precision reference.",
  "There is no test of the functions; accuracy must hold over the whole domain.",
  [INC+"functions/", SRC+"functions/"],
  [("wrappers of the special functions", SRC+"functions/")], [], ["function values"])

p("C20", "Timestamps are an exact, ordered time arithmetic",
  "A timestamp built from seconds or from a copy holds that instant, comparisons agree with the order of instants and with one another, and differences, additions and compound assignments of durations agree with arithmetic on seconds. "
  "Conversion to timespec and back keeps the instant with a nanosecond field in [0, 1e9), the printed date is the local calendar date and time of that instant, and a reading of the clock lies between the system times read before and after it.",
  ["inputs", "histories"],
  "Any seconds value (negative, fractional, before and after the epoch, far future) and any sequence of operations.",
  "There is no test of timestamps; negative and fractional values and carries are what break conversions.",
  [SRC+"base/Timestamp.cpp", INC+"base/Timestamp.h"],
  [("conversions and operators", SRC+"base/Timestamp.cpp")], [], ["public methods"])

p("C21", "Errors carry their message, argument and location intact",
  "Every exception the library throws derives from the standard exception, and its text contains the message, and when given the offending argument and the file, line and function, whatever characters (but the string terminator) or values they hold, and is stable for the life of the object. "
  "Copying and assigning an exception gives an independent one with the same text.",
  ["inputs"],
  "All exception types, arbitrary messages, argument types and values, with and without location, through copies, assignment and rethrow.",
  "Tests only check that an exception is thrown, never what it carries.",
  [INC+"exceptions/", SRC+"exceptions/"],
  [("message formatting", SRC+"exceptions/Exception.cpp"), ("argument in the message", INC+"exceptions/OutOfBoundException.tpp")], [], ["what()"])

p("C22", "No input to the library causes undefined behaviour",
  "Whatever values, indices and orders of calls its public interface is given (objects of matching dimensions, within memory), the library answers with a result or an exception: it never reads or writes outside an object, uses freed or uninitialized memory, overflows signed arithmetic, converts an out-of-range number, or fails to return. "
  "This includes moved, copied, reset and default-constructed objects and calls after a refused call.",
  ["inputs", "histories"],
  "Random call sequences over every public class with hostile values, executed under address, undefined-behaviour and uninitialized-memory instrumentation.",
  "Tests run on clean inputs without instrumentation, where such errors are silent.",
  [INC, SRC],
  [("bounds checks and validation", INC+"data-structures/Grid.tpp"), ("bounds checks and validation", INC+"algorithms/permute.tpp")], [],
  ["sanitizer reports", "definedness of returned values"])

p("C23", "Separate objects can be used from separate threads, and const calls in parallel",
  "Threads that each use their own objects of the library (distributions, functions, grids, histograms, estimators, transformations, timestamps, random generators) never race with one another through hidden shared state, and each obtains the results it would obtain alone, except that random draws of all threads come from one shared source. "
  "The same holds for several threads calling only reading operations on one shared object.",
  ["schedules"],
  "Many interleavings of threads over every class, with injected yields, under a race detector.",
  "Tests are single-threaded.",
  [INC, SRC],
  [("no mutable shared state outside the random source", INC+"statistics/Randomizer.tpp"), ("date conversion", SRC+"base/Timestamp.cpp")], [],
  ["race reports and per-thread results"])

# ---------------------------------------------------------------- design variables and error terms
p("C24", "A vector design variable updates, reverts and assigns exactly",
  "A vector-valued design variable is its value: updating by a step adds exactly that step, reverting gives back bit for bit the value before the last update, setting and getting the parameters round-trip exactly, a parameter matrix of the wrong size is refused without effect, and copies and assignments are independent. "
  "The dimension it reports to the optimizer equals the size of its value, for fixed and dynamic sizes.",
  ["histories", "inputs"],
  "Every sequence of update / revert / set / assign / copy, fixed dimensions 1..8 and dynamic, any values.",
  "The existing test (not buildable here) checks one dimension with one update.",
  [INC+"data-structures/VectorDesignVariable.h", INC+"data-structures/VectorDesignVariable.tpp"],
  [("update and revert", INC+"data-structures/VectorDesignVariable.tpp")],
  [("previous value", "value a revert goes back to", INC+"data-structures/VectorDesignVariable.h")], ["value and parameters"])

p("C25", "Analytic Jacobians of the error terms are the derivatives of their residuals",
  "For every error term with a hand-written Jacobian (range-and-bearing observation and motion of the 2d laser example; wheel, velocities, steering and pose terms of the car and time-delay examples) each Jacobian block is the derivative of the residual with respect to that design variable's step, wherever the residual is differentiable, and blocks of variables that do not influence the residual are zero. "
  "Evaluating Jacobians changes no variable.",
  ["inputs"],
  "Random and structured states, measurements and parameters (zero and reverse speeds, large angles, both wheel sides and axles, wrap-around of angles).",
  "Existing Jacobian tests evaluate one state each and need the absent optimizer stack to build.",
  [EX+"2dlrf/src/2dlrf/", EX+"car/src/error-terms/", EX+"time_delay/src/error-terms/"],
  [("evaluateJacobiansImplementation", EX+"car/src/error-terms/ErrorTermWheel.cpp")], [], ["Jacobian blocks against finite differences"])

p("C26", "Residuals are the measurement model, weighted by the configured covariance",
  "Each error term's residual is the difference between its measurement and the model prediction for the current variables, with angles wrapped to a half-open full turn, and its squared error is the quadratic form of the residual with the inverse of the covariance or variance currently configured. "
  "A covariance, variance or measurement changed through a setter takes effect on the next evaluation.",
  ["inputs", "histories"],
  "Random measurements, states, covariances, setter sequences for all error terms of the 2d laser, car and time-delay examples.",
  "Existing tests never change the covariance after construction and cannot be built here.",
  [EX+"2dlrf/src/2dlrf/", EX+"car/src/error-terms/", EX+"time_delay/src/error-terms/"],
  [("residual and inverse covariance", EX+"car/src/error-terms/ErrorTermVelocities.cpp")],
  [("inverse covariance", "weight applied to the residual", EX+"car/include/aslam/calibration/car/error-terms/")], ["residual and squared error"])

p("C27", "Geodetic conversions match the WGS84 ellipsoid and local frames are rigid",
  "Converting latitude, longitude and altitude to earth-centred coordinates gives the point at that altitude along the normal of the WGS84 ellipsoid, everywhere on and near the earth including poles, equator and the date line. "
  "The local east-north-up and north-east-down frames about an origin are right-handed orthonormal frames whose axes point along those directions there, map the origin to zero, and the two directions of each conversion are inverse to one another.",
  ["inputs"],
  "Points over the whole earth at altitudes from below sea level to orbit, any origin.",
  "There is no test of the conversions.",
  [EX+"car/src/geo/geodetic.cpp", EX+"car/include/aslam/calibration/car/geo/geodetic.h"],
  [("closed-form conversions", EX+"car/src/geo/geodetic.cpp")], [], ["converted coordinates"])

p("C28", "Example calibration variables keep every parameter in its place",
  "The calibration-variable sets of the car, time-delay and egomotion examples start from the configured options, report every parameter at its own position in the parameter vector, in agreement with the variables themselves and with the names printed for them, and adding them to a batch puts each variable in exactly once, in the requested group, active or not as configured. "
  "Options and simulation parameters read from a configuration take each value from its own key and keep the default for a missing key that has one.",
  ["inputs", "configurations"],
  "Random options and configurations, random values of every variable.",
  "There is no test; a swapped or overwritten parameter position is silent.",
  [EX+"car/src/design-variables/OdometryDesignVariables.cpp", EX+"time_delay/src/design-variables/OdometryDesignVariables.cpp", EX+"egomotion_sensors/src/design-variables/DesignVariables.cpp", EX+"car/src/algo/CarCalibratorOptions.cpp"],
  [("parameter packing", EX+"car/src/design-variables/OdometryDesignVariables.cpp")], [], ["parameter vector, batch contents, options"])

p("C29", "Every measurement lands in exactly one batch of the windowed calibrators",
  "The example calibrators cut a time-ordered measurement stream into windows of the configured duration so that every measurement accepted goes into exactly one batch, in order, a window with too little data to define a trajectory keeps accumulating instead of losing data, and each window produces exactly one offer to the estimator, one information-gain entry and one entry of the variable history. "
  "Clearing forgets pending measurements and nothing else. "
  "Each measurement of a batch enters it as one error term with the weight configured for its kind, and a measurement whose prediction is reported is predicted in agreement with that term; predicting disturbs nothing. With reporting on, each estimated variable's observability appears under its own name, one that is not estimated does not appear, and reporting changes no result.",
  ["histories", "inputs", "configurations"],
  "Random streams of interleaved measurement types, rates, gaps, window lengths, flushes and clears.",
  "There is no test of the calibrators.",
  [EX+"time_delay/src/algo/Calibrator.cpp", EX+"egomotion_sensors/src/algo/Calibrator.cpp", EX+"car/src/algo/CarCalibrator.cpp"],
  [("window bookkeeping", EX+"time_delay/src/algo/Calibrator.cpp")], [("current batch start", "time of the first measurement of the window", EX+"time_delay/include/aslam/calibration/time-delay/algo/Calibrator.h")], ["batches offered, histories"])

p("C30", "Simulation and initialization utilities produce the data they promise",
  "The 2d laser example's sine-wave path has exactly the requested number of control inputs, the first one zero, and they are the speeds and turn rates of travelling along that sine wave; its landmark initialization places each landmark seen at the position of its first observation in the world for the given poses and calibration, and no other. "
  "The time-delay example's simulator produces one sample per time step with strictly increasing times, and its noise-free wheel speeds and poses are those of the simulated motion; same parameters and seed give the same data. "
  "The egomotion example's simulator gives every sensor a strictly ordered stream of relative motions between instants of one smooth carrier trajectory (no jump between the stages of a combined motion), seen through that sensor's mounting and shifted by its time delay, with the configured covariance and noise of that size; without noise they are exact.",
  ["inputs", "configurations"],
  "Random path, simulation and calibration parameters, any step count, any observation pattern.",
  "There is no test of the simulation code.",
  [EX+"2dlrf/src/2dlrf/utils.cpp", EX+"time_delay/src/simulation/simulationEngine.cpp", EX+"egomotion_sensors/src/simulation/simulationEngine.cpp"],
  [("path generation", EX+"2dlrf/src/2dlrf/utils.cpp"), ("simulation loop", EX+"time_delay/src/simulation/simulationEngine.cpp"), ("simulation loop", EX+"egomotion_sensors/src/simulation/simulationEngine.cpp")], [], ["generated data"])

p("C31", "Quaternion continuity picks the representation closest to the previous one",
  "Given a previous and a current unit quaternion, the chosen quaternion represents the current rotation (it is the current one or its negative, exactly) and is the one of the two nearer to the previous, in every example; applied along a sequence it never jumps by more than the rotation between neighbours requires.",
  ["inputs", "histories"],
  "Random and adversarial quaternion pairs and long random-walk sequences, including orthogonal pairs and sign flips.",
  "There is no test of it.",
  [EX+"car/src/algo/bestQuat.cpp", EX+"time_delay/src/algo/bestQuat.cpp", EX+"egomotion_sensors/src/algo/bestQuat.cpp"],
  [("sign choice", EX+"car/src/algo/bestQuat.cpp")], [], ["returned quaternion"])

p("C32", "Noise-free informative data leads back to the true calibration",
  "When the measurements offered batch by batch are exact (no noise) for some true calibration and the motion makes the calibration observable, the estimator ends with that calibration, from any first guess near it and for any batching, weighting and threshold that keeps informative batches: the laser offset and landmark problem, the odometry calibrator (mounting, half wheel base, wheel coefficients, wheel delays) and the egomotion calibrator (mounting and delay of each sensor against the reference). Declining uninformative batches does not bias the result.",
  ["histories", "inputs", "configurations"],
  "Random smooth motions, calibrations, first guesses, measurement rates, phases, window lengths, weights and information gain thresholds.",
  "It needs the whole chain (initialization, windows, error terms, estimator) over a family of motions; the tests run no calibration.",
  [EX+"2dlrf", EX+"time_delay/src/algo/Calibrator.cpp", EX+"egomotion_sensors/src/algo/Calibrator.cpp", "incremental_calibration/src/core/IncrementalEstimator.cpp"],
  [("window processing", EX+"time_delay/src/algo/Calibrator.cpp"), ("window processing", EX+"egomotion_sensors/src/algo/Calibrator.cpp"), ("estimation", "incremental_calibration/src/core/IncrementalEstimator.cpp")], [], ["estimated calibration"])

p("C33", "Every image with a board enters the camera calibration once, and exactly",
  "The camera calibrator turns each image in which the board is found into one pose variable (rotation and translation of the board in front of the camera, estimated) and one reprojection error per corner seen, with the configured variance and, if asked for, the configured M-estimator, tied to that image's pose, that board corner and the calibrated camera; an image without a board changes nothing, and images before initialization are refused. "
  "A batch is offered exactly once, after the configured number of such images or when flushed, and never without images; the observations of accepted batches are kept and of others not, the i-th reported pose belongs to the i-th kept observation, and projection, distortion, their deviations and the error statistics are those of the kept images. "
  "Options come from their own keys, an unknown camera type is refused, results are written under their own names and read back as the same camera, and exact images give back the camera that took them.",
  ["histories", "inputs", "configurations"],
  "Random cameras of both types, boards, motions, missing and partly hidden boards, batch sizes, interleaved flushes and clears; accepted and rejected batches.",
  "There is no test of the camera example.",
  [EX+"camera/src/camera/CameraCalibrator.cpp", EX+"camera/include/aslam/calibration/camera/CameraCalibrator.h"],
  [("batch construction and bookkeeping", EX+"camera/src/camera/CameraCalibrator.cpp")], [], ["batches offered, reported poses and statistics, written results"])

p("C34", "Camera validation judges exactly the corners measured",
  "For each image in which the board is found the camera validator compares every corner that was seen and can be predicted with its prediction by the camera under validation, and nothing else: the reported errors are predicted minus measured, and mean, variance, squared-error statistics, maximum and outliers are those of the errors so far; an image without a board changes nothing but the last image. "
  "The picture of the last image marks the measured and the predicted corners and shows the figures of that image. An unknown camera type is refused and the camera used is the one configured.",
  ["histories", "inputs", "configurations"],
  "Random cameras, boards, partly hidden and missing boards, corners that cannot be predicted, corner noise and gross errors.",
  "There is no test of the camera example.",
  [EX+"camera/src/camera/CameraValidator.cpp"],
  [("error bookkeeping", EX+"camera/src/camera/CameraValidator.cpp")], [], ["errors, statistics, outliers, picture"])

p("C35", "What is written out is what was estimated or simulated, complete, in order",
  "Writing a trajectory gives one row (position, yaw, pitch, roll) for every instant from its start in steps of the requested length up to, not including, its end; writing the trajectories of an estimator gives those of every batch it holds, of every spline of the batch, in order, and of no other batch. "
  "A batch of splines hands out its position and attitude splines in the order added, refuses numbers outside, and holds their variables once in the requested group, to be estimated. "
  "The simulated data of the time-delay example are written one row per sample in order, each quantity into its own file.",
  ["inputs", "histories"],
  "Random fitted trajectories, steps that do and do not divide the length, kept, rejected and removed batches with none to several splines, random simulated data.",
  "There is no test of the output functions.",
  [EX+"car/src/algo/splinesToFile.cpp", EX+"time_delay/src/algo/splinesToFile.cpp", EX+"egomotion_sensors/src/algo/splinesToFile.cpp", EX+"time_delay/src/simulation/SimulationData.cpp", EX+"car/src/algo/OptimizationProblemSpline.cpp"],
  [("output loop", EX+"car/src/algo/splinesToFile.cpp"), ("splines of a batch", EX+"car/src/algo/OptimizationProblemSpline.cpp")], [], ["files written"])

p("C36", "The solver adapter passes on exactly the system it was given",
  "The adapter between the optimizer and the truncated SVD solver takes each option from its own key, keeping the default of a missing one; solving hands the solver the weighted Jacobian of the current errors, the error vector and the start column of the marginalized variables, and returns the solver's step; analysing hands over the same Jacobian. "
  "A failed transposition is reported as failure without running the solver, a failure of the solver is passed on, and no intermediate matrix outlives a call either way. A new structure forgets the earlier analysis and nothing of the configuration; a diagonal conditioner is refused; reporting reports the ranks found, changes no result and leaves the format of the output as it was.",
  ["histories", "inputs", "fault_sequences"],
  "Random histories of new structures, builds, solves, analyses, option changes and failures injected below.",
  "There is no test of the adapter.",
  ["aslam_tsvd_solver/src/aslam-tsvd-solver.cc", "aslam_tsvd_solver/include/aslam-tsvd-solver/aslam-tsvd-solver.h"],
  [("solver adapter", "aslam_tsvd_solver/src/aslam-tsvd-solver.cc")], [], ["matrices and vectors handed over, step returned, matrices held"])

p("C37", "Python sees and does exactly what C++ sees and does",
  "Every function and attribute the Python module exports can be called and read, and gives what the C++ function or member of that name gives: batches built from Python hold the variables and error terms given, in the groups given; offering, removing and reoptimizing do it on the same estimator and return that solve's figures; options read and written from Python are those of the object; every figure of estimator, problem and solver is the current one. "
  "A call C++ refuses raises an error in Python and changes nothing, and an object obtained from another stays valid as long as Python holds it.",
  ["histories", "inputs", "programs"],
  "Random programs over every exported class, run in an embedded interpreter, including refused calls and objects outliving the names that led to them.",
  "There is no test of the Python interface.",
  ["incremental_calibration_python/src/IncrementalEstimator.cpp", "incremental_calibration_python/src/OptimizationProblem.cpp", "incremental_calibration_python/src/LinearSolver.cpp"],
  [("exports", "incremental_calibration_python/src/IncrementalEstimator.cpp")], [], ["values read from Python and from C++"])

p("C38", "Simulation programs report and write what they simulated and estimated",
  "The simulation programs of the 2d laser, time-delay and egomotion examples write the true path of the configured shape, odometry and sensor data whose noise has the configured covariance around it, and estimates with one line per estimated quantity, each file holding what its name says in order. "
  "Every sample of the path is offered in exactly one batch (the last may be shorter), the number of batches kept, offered, of variables and of error terms reported is that of the batches accepted, and the reported calibration and covariance are those of the estimator. "
  "The estimate shown against the truth is the estimate moved by the rigid motion that brings its landmarks closest to the true ones, headings turned with positions; hardly noisy data of a path that determines the calibration give back calibration, map and poses, and noisy data give back the calibration within its reported covariance.",
  ["inputs", "configurations"],
  "Random path shapes, sampling intervals, noise levels, landmark counts, batch sizes, window lengths and acceptance thresholds, under the configuration shipped and varied ones.",
  "The simulation programs are run by no test, and their statements hold for every configuration and seed.",
  [EX+"2dlrf/src/2dlrf/simulate-offline.cpp", EX+"2dlrf/src/2dlrf/simulate-online-new.cpp", EX+"time_delay/src/simulation/simulator.cpp", EX+"egomotion_sensors/src/simulation/simulator.cpp"],
  [("batching and alignment", EX+"2dlrf/src/2dlrf/simulate-online-new.cpp"), ("batching and output", EX+"time_delay/src/simulation/simulator.cpp"), ("batching and output", EX+"egomotion_sensors/src/simulation/simulator.cpp")], [], ["files written, text reported"])

p("C39", "Each message of a car's log becomes its measurement, each figure its file",
  "The car calibrator and analyzer turn every message of a configured topic of an enabled sensor into exactly one measurement, in the order of the log, and ignore other topics: positions in a local frame that begins at the first pose, attitudes and velocities of the vehicle in that frame and its own, variances from the latest performance message in the frame of what they describe, encoder distances into speeds, times corrected from the sensor's own clock; poses before the first performance message are dropped. "
  "Measurements, predictions, errors, histories, deviations and the estimated path written to files are those of the library given the same measurements, each under the name of what it describes, for every selection of sensors and delays. "
  "Exact messages of a drive that determines the wheel coefficients give these back. A call with the wrong number of arguments is refused.",
  ["inputs", "configurations", "histories"],
  "Random drives, places on earth, vehicle geometries, message rates and orders, sensor selections, topics, windows and thresholds.",
  "No test runs the programs or decodes a message.",
  [EX+"car/src/realworld/calibrator.cpp", EX+"car/src/realworld/analyzer.cpp"],
  [("message decoding and output", EX+"car/src/realworld/calibrator.cpp"), ("message decoding and output", EX+"car/src/realworld/analyzer.cpp")], [], ["files written"])

p("C40", "Camera programs use each image once and name results after its time",
  "The camera calibration program initializes the camera from the first image fit for it and then gives every image of the configured topic, once, in order and with its own time, to the calibrator; the figures it prints, the errors it writes and the camera in the result file (named by camera, type, date of the log, batch size and threshold) are those of the calibrator given the same images, and the validation program reads that camera back. "
  "Pictures of boards that entered the estimate are kept, if asked for, under the time of their image. The validation program reports errors, mean, deviation, maxima and outliers of all corners seen and predicted; if asked to, it shows and keeps one picture per image with a board, of that image, under its time, and none for an image without. Nothing is written that was not asked for; a wrong number of arguments is refused.",
  ["inputs", "configurations", "histories"],
  "Random cameras of both types, boards, logs with missing boards, unfit first images and foreign topics, batch sizes, thresholds and output options, under the configuration shipped and varied ones.",
  "No test runs the programs.",
  [EX+"camera/src/camera/calibrateCamera.cpp", EX+"camera/src/camera/validateCamera.cpp"],
  [("program", EX+"camera/src/camera/calibrateCamera.cpp"), ("program", EX+"camera/src/camera/validateCamera.cpp")], [], ["text reported, files written, pictures shown"])

p("C41", "Runs are reproducible",
  "The same inputs, configuration and random seed give the same results, bit for bit, each time: the decisions, estimates, figures, bases, covariances, Jacobian and orders of an estimator given the same history of offers, removals and optimizations; the samples drawn after a seed is set; and every file and all text (but elapsed times) a simulation, car or camera program leaves. "
  "Nothing depends on where objects lie in memory, on what memory held before, on the time or folder of the run, or on an earlier run in the same process.",
  ["histories", "inputs", "configurations"],
  "Random histories of the estimator, draws and program runs, each made twice on storage handed out in another random order and filled with other bytes.",
  "A test runs once and looks at its own result; a dependence on memory layout or content shows only when runs are compared.",
  ["incremental_calibration/src/core/IncrementalEstimator.cpp", "incremental_calibration/src/core/IncrementalOptimizationProblem.cpp", "incremental_calibration/include/aslam/calibration/statistics/Randomizer.tpp", EX+"2dlrf/src/2dlrf/simulate-offline.cpp", EX+"2dlrf/src/2dlrf/simulate-online-new.cpp", EX+"time_delay/src/simulation/simulator.cpp", EX+"egomotion_sensors/src/simulation/simulator.cpp", EX+"car/src/realworld/calibrator.cpp", EX+"camera/src/camera/calibrateCamera.cpp"],
  [("history", "incremental_calibration/src/core/IncrementalEstimator.cpp"), ("orders", "incremental_calibration/src/core/IncrementalOptimizationProblem.cpp"), ("seed", "incremental_calibration/include/aslam/calibration/statistics/Randomizer.tpp")], [], ["estimates and figures, files written, text printed"])
I = "incremental_calibration/include/aslam/calibration/"
p("C42", "What an object prints is what it holds",
  "Printing a distribution, an estimator, a grid or histogram, a transformation, a timestamp, a randomizer or a parametrized function names each of its figures and gives the value the object holds at that moment - after any setters, copies and assignments - in the precision and format the stream asks for: every component of vectors and matrices, every cell of a grid in its order, none twice. "
  "Printing through the base type prints the same, changes neither the object nor the format of the stream, and a copy prints what its source prints.",
  ["inputs", "histories", "configurations"],
  "Random objects of every class that prints itself, built, changed, assigned and copied, and printed in random stream formats.",
  "Tests print objects without looking at the text.",
  [I+"statistics/GammaDistribution.tpp", I+"statistics/NormalDistributionMv.tpp", I+"statistics/UniformDistributionMv.tpp", I+"statistics/EstimatorMLNormalMv.tpp", I+"data-structures/Grid.tpp", I+"geometry/Transformation3d.tpp", "incremental_calibration/src/base/Serializable.cpp", "incremental_calibration/src/base/Timestamp.cpp"],
  [("figures", I+"statistics/NormalDistributionMv.tpp"), ("cells", I+"data-structures/Grid.tpp"), ("base type", "incremental_calibration/src/base/Serializable.cpp")], [], ["text written to a stream"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
