#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json, os

B = "src/mud/base.py"; F = "src/mud/funs.py"; U = "src/mud/util.py"; N = "src/mud/norm.py"
P = "src/mud/plot.py"; PP = "src/mud/preprocessing.py"
X = "src/mud/examples/"
R = []

def prop(id, title, statement, over, qtext, why, files, mech, observe, state=(), hook=None):
    R.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
        "anchors": {
            "files": files,
            "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
            "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
            "observe_at": observe, "hook_needed": hook}})

prop("C01", "The MUD point maximises the data-consistent updated density",
 "For any parameter samples, sample weights and initial, observed and predicted densities, the estimate returned by a density problem is one complete row of the supplied samples, and no other sample has a larger value of initial density x sample weight x observed density / predicted density, where a density evaluated on several components is the product over the components. A sample whose updated density is undefined (0/0, or zero weight where the predicted density vanishes) is never reported while another sample has a positive one.",
 ["inputs", "configurations"], "all sample sets, dimensions, weights and density triples",
 "The tests use one 1-D identity map with uniform initial density and check the answer to one decimal.",
 [B], [("DensityProblem.fit", B), ("DensityProblem.mud_point", B)],
 ["value returned by estimate()/mud_point()"],
 [("updated density", "one value per sample", B)])

prop("C02", "Density-problem answers never lag behind the configuration in force",
 "After any sequence of setting weights, initial, observed or predicted distributions, fitting, estimating and plotting, the estimate and the expected ratio equal those of a freshly built problem that is given only the distributions and weights in force at that moment. Setting the weights or the initial distribution (also the default initial filled in by the first solve) discards the predicted distribution, which is then rebuilt with its default; no other setting is discarded by any call.",
 ["histories"], "all call histories over one density problem",
 "Tests build a problem, configure it once and ask once; none re-configures a solved problem.",
 [B], [("set_weights / set_observed / set_initial / set_predicted invalidation", B), ("fit lazily fills what is missing", B)],
 ["estimate() and expected_ratio() after every call of a recorded history"],
 [("cached updated density", "must be dropped whenever one of its factors changes", B)])

prop("C03", "Sample weights combine, normalise and scale as documented",
 "Several weight vectors act as their element-wise product, normalising divides the combined vector by its Euclidean norm, and omitted weights act as all ones; weights whose length differs from the number of samples are refused and leave the problem as it was. Multiplying all weights by a positive constant changes neither the estimate nor the expected ratio, and a sample of weight zero has the same effect on both as leaving that sample out.",
 ["inputs", "configurations"], "all weight arrays, stackings, scalings and exclusion patterns",
 "Tests use all-ones weights and one two-level weighting and check one decimal of the answer.",
 [B], [("DensityProblem.set_weights", B), ("weighted predicted density", B)],
 ["estimate(), expected_ratio()"])

prop("C04", "Unspecified density-problem inputs take their documented defaults",
 "Without an explicit choice the initial density is uniform over the problem's domain, the domain is the bounding box of the samples widened on each side by the requested padding (10% of the range unless given), the observed density is standard normal and the predicted density is the sample-weighted Gaussian kernel estimate of the predicted values with the requested bandwidth rule. One-dimensional sample and prediction vectors are read as repeated samples of a scalar quantity, and extra keyword arguments reach the evaluation of an explicitly supplied predicted density.",
 ["inputs", "configurations"], "all subsets of inputs left at their defaults, in all dimensions",
 "Tests only exercise the fully specified 1-D identity problem plus two keyword smoke cases.",
 [B, U], [("DensityProblem.__init__", B), ("set_initial/set_observed/set_predicted defaults", B), ("fit_domain", U)],
 ["domain, estimate(), expected_ratio()"])

prop("C05", "The expected ratio diagnoses predictability",
 "The expected ratio is the sample-weighted average of observed over predicted density. For samples drawn from the initial density with an exact predicted density it stays within sampling error of 1 whenever the observed density is supported inside the predicted one, and it falls towards the reachable probability mass (0 when nothing is reachable) otherwise.",
 ["inputs", "configurations"], "all sample sets and observed/predicted pairs, inside and outside the predictable regime",
 "One problem inside and one outside the regime are checked to zero or one decimals.",
 [B], [("DensityProblem.expected_ratio", B)], ["expected_ratio()"])

prop("C06", "Density and Bayes answers ignore sample order and units of measurement",
 "Reordering the samples together with their predictions and weights leaves the estimates of density and Bayes problems and the expected ratio unchanged (up to exact ties), and so does repeating one problem with a parameter or an observable expressed in other units (an increasing affine change applied consistently to samples, domain, predictions and densities), apart from the change of units in the reported point.",
 ["inputs"], "all permutations and affine re-parameterisations of all problems",
 "No test permutes or rescales anything.",
 [B], [("vectorised sample-wise densities", B)], ["estimate(), expected_ratio(), map_point()"])

prop("C07", "The MAP point maximises prior times likelihood, for the latest settings",
 "The estimate of a Bayes problem is one complete row of the supplied samples and no other sample has a larger product of prior density and data likelihood (both products over components; the prior defaulting to uniform over the domain). A sample whose posterior is undefined is never reported while another has a positive one. This holds for the prior and likelihood set last, after any sequence of setting, fitting, estimating and plotting.",
 ["inputs", "histories"], "all Bayes problems and call histories over them",
 "One 1-D identity problem is checked to one decimal, configured once.",
 [B], [("BayesProblem.fit", B), ("set_prior / set_likelihood invalidation", B)], ["map_point()/estimate()"])

prop("C08", "Log-likelihood mode agrees with plain mode and a vanishing posterior is refused",
 "Evaluating the likelihood in log form selects a sample of maximal posterior also where the plain product underflows, agrees with the plain form otherwise, and shows the same posterior in plots. In either form a problem whose posterior is zero at every sample is refused with an error instead of reporting a point, and a problem with a non-zero posterior is never refused.",
 ["inputs", "configurations"], "all Bayes problems in both likelihood forms, including underflow and disjoint supports",
 "Log form is not tested at all.",
 [B], [("BayesProblem.set_likelihood(log)", B), ("BayesProblem.fit zero check", B)], ["map_point(), raised errors, plotted posterior curve"])

prop("C09", "Linear MUD solution fits the data and moves only along informed directions",
 "For a linear-Gaussian problem the MUD point minimises the Euclidean residual between map output (operator applied to the point plus offset) and observation - reproducing the observation exactly when the operator has full row rank - and among those minimisers it is the one nearest to the initial mean in the norm of the inverse initial covariance. It does not depend on the observation covariance or on the regularisation scale, and the variant computed through the updated covariance gives the same point whenever the operator has full row rank.",
 ["inputs", "configurations"], "all operators (any shape and rank), offsets, data, means and SPD covariances",
 "Tests cover a random square 2x2 operator with zero mean and identity covariance and one doctest.",
 [B, F], [("LinearGaussianProblem.solve mud / mud_alt", B), ("mud_sol, mud_sol_with_cov", F)], ["returned points"])

prop("C10", "Linear MAP solution minimises mismatch plus regularisation",
 "For a linear-Gaussian problem the MAP point is the unique minimiser of the data mismatch in the observation covariance plus the distance to the initial mean in the scaled initial covariance, whatever the shapes and rank, and the accompanying posterior covariance is the inverse of that objective's half-Hessian (symmetric positive definite). As the observation noise shrinks the MAP point approaches data-consistency, and as it grows the point returns to the initial mean.",
 ["inputs", "configurations"], "all linear problems with SPD covariances and positive scales",
 "Tests only compare two entry points with each other on one 2x2 system.",
 [B, F], [("LinearGaussianProblem.solve map", B), ("map_sol, map_sol_with_cov", F)], ["returned points and covariance"])

prop("C11", "Least squares, solve-all and output truncation are mutually consistent",
 "The least-squares answer of a linear problem is the minimum-norm minimiser of the residual; asking for all solutions returns exactly the MUD, MAP and least-squares answers of the individual requests, in that order. Restricting the output dimension gives the answers of the problem that has only those first outputs, and no request changes the answer of a later one.",
 ["inputs", "histories"], "all linear problems, truncations and request orders",
 "The convergence example runs these paths but no test looks at any number.",
 [B], [("LinearGaussianProblem.solve", B)], ["returned points"])

prop("C12", "Updated covariance is the data covariance where informed, initial elsewhere",
 "Pushing the updated covariance through the operator gives the data covariance on the operator's range (exactly the data covariance at full row rank), and on directions the data does not inform it acts as the initial covariance; it is symmetric and positive semi-definite. The method, the stand-alone function and the covariance produced while solving agree, with omitted covariances meaning identity for the function and the problem's own for the method.",
 ["inputs", "configurations"], "all operators of any shape and rank with SPD covariances",
 "Doctests use multiples of the identity; one test uses a square invertible operator.",
 [B, F], [("LinearGaussianProblem.updated_cov", B), ("updated_cov", F)], ["returned matrices"])

prop("C13", "Linear functionals are the ones the solutions minimise",
 "For every set of points the reported terms are the squared data mismatch, regularisation and predicted-data terms of the linear problem, each in its own covariance, with Bayesian = data + regularisation, data-consistent = Bayesian - predicted and modified regularisation = regularisation - predicted. No point has a smaller Bayesian functional than the MAP solution nor, for operators of full row rank (where the predicted term is defined), a smaller data-consistent functional than the MUD solution, for every offset, number of outputs and regularisation scale.",
 ["inputs", "configurations"], "all linear problems, all evaluation points, every offset and scale",
 "Contour plots are drawn for one zero-offset 2-to-1 map; no value is checked.",
 [B], [("LinearGaussianProblem.compute_functionals", B)], ["returned functional values against solve()"])

prop("C14", "Norm functions compute the covariance-weighted quadratic functionals",
 "The induced inner product of each column is x^T C^-1 x, the input, data and predicted norms are that quadratic form of the centred inputs, the model-data residual and the mapped centred inputs with the predicted covariance, and the full functional is input + data - predicted. Scalar and matrix covariances, omitted observation arguments, and row or column vectors of means and data mean the same thing, for any number of points and outputs.",
 ["inputs"], "all SPD matrices, operators, point sets and argument forms",
 "Tests check positivity for one point and one output with zero means.",
 [N], [("inner_product", N), ("full_functional", N), ("norm_input/norm_data/norm_predicted", N)], ["returned values"])

prop("C15", "Linear solver entry points agree with the problem class for all input forms",
 "The function-style solvers (MUD, MAP, with and without covariance) return the points and covariances of the corresponding problem-class requests for scalars, lists, row, column and flat vectors alike, returning a column exactly when the observation was given as a matrix and a flat vector otherwise, with omitted mean, covariances and observation meaning zero mean, identity covariances and zero observation. Mismatched numbers of outputs are refused.",
 ["inputs", "configurations"], "all linear problems in all accepted argument forms",
 "Only column inputs of one 2x2 system are exercised.",
 [F, B], [("lin_prob, mud_sol, map_sol, *_with_cov", F), ("LinearGaussianProblem.__init__ reshaping", B)], ["returned points and covariances, raised errors"])

prop("C16", "The weighted mean error map standardises residuals",
 "For each sample the weighted mean error is the sum of (prediction - datum)/sd over the data divided by the square root of the number of data, with sd defaulting to the standard deviation of the data; data given as list, row or column means the same, and a prediction/data length mismatch is refused. Over repeated noise draws with that sd its value at the true parameter is standard normal, whatever the number of data.",
 ["inputs"], "all predictions, data forms, noise levels and data counts",
 "Tests use zero or constant residuals with flat data (a TODO in the tests names the untested forms).",
 [F], [("wme", F)], ["returned values"])

prop("C17", "Linear weighted-mean-error maps reproduce the error map they stand for",
 "For every parameter, the affine map built from an operator, data and noise level (repeated or per-observation operators, scalar or per-observation noise) evaluates to the weighted mean error of the operator's predictions against the data; several quantities of interest stack one row each in order, and the linear error-map problem, the utility functions and the direct formula agree. Noise levels that are (numerically) zero, or mismatched numbers of observations or noise levels, are refused.",
 ["inputs", "configurations"], "all operators, data sets, noise specifications and stackings",
 "Doctests use an all-ones operator with noiseless data (residual zero).",
 [U, B], [("transform_linear_map, transform_linear_setup", U), ("LinearWMEProblem", B)], ["returned operators/offsets, problem solutions"])

prop("C18", "Iterative solving chains one-observation solutions in the requested order",
 "Each link of an iterative solution is the single-observation solution started from the previous link, so a MUD link reproduces its own observation exactly and moves only along its own informed direction; rows are visited in the requested order, every epoch, and epochs as well as repeated solve calls continue from the last link. The iterative problem class, its function entry point and the epoch helper functions produce the same sequence of points.",
 ["inputs", "histories"], "all linear systems, row orders, epoch counts and repeated calls",
 "No test runs the iterative solver.",
 [B, F], [("IterativeLinearProblem.solve", B), ("iter_lin_solve, performEpoch, iterate", F)], ["solution chains, returned points"])

prop("C19", "Iterating on a consistent system never moves away from the truth",
 "For a consistent linear system the distance to any exact solution, measured in the inverse initial covariance, never increases along an iterative MUD chain, strictly decreases whenever a link violates its observation, and converges to an exact solution over enough epochs of a well-conditioned system. The reported errors are the Euclidean distances of every link, in order, to the reference supplied in that request.",
 ["inputs", "histories"], "all consistent systems, visiting orders and reference points",
 "No test runs the iterative solver.",
 [B], [("IterativeLinearProblem.solve/get_errors", B)], ["solution chains, get_errors()"])

prop("C20", "Selecting samples, sensors and times picks exactly the matching data",
 "Sub-sampling a spatio-temporal problem with any combination of sample, sensor and time selections (index lists in any order, booleans, slices or none) returns the parameters, times, sensors, simulated values and measurements that belong to exactly the selected indices, sensors varying slower than times in the flattened data. Three-dimensional (sample x sensor x time) and already flattened data are equivalent, and sub-sampling never changes the problem.",
 ["inputs", "configurations"], "all data shapes and selections",
 "The CLI smoke tests use one time window and one sensor subset and compare one printed point.",
 [B], [("SpatioTemporalProblem.sample_data", B), ("data setter flattening", B)], ["returned tuple"])

prop("C21", "Inconsistent spatio-temporal inputs are refused and leave the problem unchanged",
 "Assigning data whose size contradicts the sensors and times, a domain with the wrong number of parameters or not containing the samples, samples of the wrong dimension, a reference parameter that is not a point of the domain, measurements or true values of the wrong size, or an unknown sample distribution raises an error and leaves every previous value in place; consistent assignments in any valid order are accepted. Validation names exactly the missing required fields, and using sizes, data or reference values before they are set raises an error.",
 ["inputs", "histories"], "all assignment sequences, valid and invalid",
 "No test assigns anything inconsistent.",
 [B], [("SpatioTemporalProblem property setters", B), ("validate", B)], ["raised errors and values read back"])

prop("C22", "QoI built from spatio-temporal data are the documented aggregates",
 "With residuals (measurement - simulation)/noise level over the selected data, the error-map quantity is their sum divided by the square root of the number of selected data, the PCA quantity is their projection on the leading principal directions of the standardised residuals and the SVD quantity the projection on its leading right singular vectors; data weights multiply the residuals datum-wise after normalisation. The directions kept with the study are those used. The resulting inverse problem uses the selected samples, the problem's domain and the given sample weights; a selection gives the same problem as loading only the selected data, and an unknown method or mismatched weights are refused.",
 ["inputs", "configurations"], "all data sets, methods, selections and weights",
 "Two printed MUD points of two fixed data sets (PCA only) are compared.",
 [B, PP], [("SpatioTemporalProblem.mud_problem", B), ("pca, svd", PP)], ["the returned problem's samples, predictions, domain, estimate"])

prop("C23", "Synthetic measurements are truth plus noise of the requested size",
 "Noisy signals and measurements generated from a reference equal the reference plus independent zero-mean normal noise with the requested standard deviation, keep the reference's shape, reproduce exactly under the same seed and differ under different seeds; zero noise returns the reference. The standard deviation derived from an equipment tolerance puts exactly the requested probability within that tolerance.",
 ["inputs"], "all signals, noise levels, seeds, tolerances and probabilities",
 "One doctest rounds a mean of five values; the tolerance is only checked to be an upper bound.",
 [U, B], [("add_noise, std_from_equipment", U), ("SpatioTemporalProblem.measurements_from_reference", B)], ["returned arrays, measurements"])

prop("C24", "Loading a problem restores exactly the supplied fields",
 "Loading from a mapping or from a file holding the same content yields the same problem; every recognised field present is stored with its values and every absent one left unset, fields stored under other names are found through the given name mapping, and literal (non-string) values passed in the call are used as they are; a string is always a name to look up. A missing file is reported as such.",
 ["inputs", "configurations"], "all subsets of fields, name mappings, literal overrides and storage forms",
 "Two fixed pickle files are loaded with unmapped names.",
 [B], [("SpatioTemporalProblem.load", B)], ["fields read back after load"])

prop("C25", "The closest simulated sample is found for any selection",
 "The parameter reported as closest to the measurements is the selected sample whose selected simulated data have the least Euclidean distance to the selected measurements, and the one reported closest to the true values minimises the distance to all true values; a sample whose simulation failed (NaN) is never reported while another is available; without measurements or true values an error is raised.",
 ["inputs"], "all data sets and selections",
 "Not tested.",
 [B], [("get_closest_to_measurements, get_closest_to_true_vals", B)], ["returned parameter"])

prop("C26", "Principal components of data are orthonormal, ordered and exact",
 "PCA of any two-dimensional data returns the requested number of orthonormal directions and scores that are the projections of the column-standardised data on them, uncorrelated, with non-increasing variances equal to the leading eigenvalues of the standardised covariance, so that with all components the standardised data are reproduced. The scores do not change (up to sign) when columns are shifted or rescaled, and data that are not two-dimensional are refused.",
 ["inputs"], "all data matrices, component counts and column units",
 "Doctests use the 2x2 identity and random shapes.",
 [PP], [("pca", PP)], ["returned scores and components"])

prop("C27", "Singular value decomposition of data reproduces the standardised data",
 "The SVD of any two-dimensional data returns orthonormal left and right vectors and non-negative, non-increasing singular values whose product reproduces the column-standardised data, unaffected (up to signs) by shifting or rescaling columns; options given for the underlying decomposition are honoured; data that are not two-dimensional are refused.",
 ["inputs"], "all data matrices and column units",
 "Doctests use the 2x2 identity and random shapes.",
 [PP], [("svd", PP)], ["returned factors"])

prop("C28", "The null-space basis is orthonormal, complete and annihilated",
 "For any matrix the returned columns are orthonormal, are mapped to (numerically) zero by the matrix, and number exactly columns minus numerical rank at the given relative threshold, so that together with the row space they span everything.",
 ["inputs"], "all matrices of any shape, rank and scaling",
 "Three doctest matrices of full or rank one.",
 [U], [("null_space", U)], ["returned basis"])

prop("C29", "Rank updates of a matrix are its best approximations of each rank",
 "The list of rank updates of a matrix has one entry per possible rank; entry k has rank k (in order 1, 2, ...), is the closest matrix of that rank, and the last entry equals the matrix, for matrices of any shape. The rank-convergence study therefore solves problems of rank exactly 1, 2, ... and its errors at full rank are those of the full problem.",
 ["inputs"], "all matrices of any shape",
 "The function is executed by the CLI smoke test only.",
 [U, X + "linear.py"], [("rank_decomposition", U), ("run_high_dim_linear", X + "linear.py")], ["returned list, returned errors"])

prop("C30", "Fitted domains and meshes cover exactly the requested box",
 "A domain fitted to real-valued samples (or to given bounds) is, per parameter, the minimum minus and maximum plus the padding ratio times the range, contains every sample, and leaves its inputs unmodified; asking for neither samples nor bounds is refused. Unit, normal and n-dimensional meshes contain exactly the evenly spaced grid points of the requested box, each once, with flattened coordinates agreeing with the mesh arrays.",
 ["inputs"], "all sample arrays, padding ratios, dimensions and resolutions",
 "Two integer doctests and one 3-point mesh.",
 [U, P], [("fit_domain, make_2d_unit_mesh", U), ("build_nd_mesh_grid, make_2d_normal_mesh", P)], ["returned arrays, inputs afterwards"])

prop("C31", "Plotted densities are the requested marginals of the current problem",
 "Every density curve drawn for a density or Bayes problem is non-negative, has unit area over the plotted range (Bayes observable-space curves are drawn up to a constant factor) and is, up to that normalisation, the marginal - in the requested parameter or observable - of the density it is labelled with (initial, updated, weighted initial, observed, predicted, push-forward, prior, posterior), computed from the configuration in force, in any number of dimensions. Point markers sit at the current estimate, the reference value or the requested coordinates; drawn as vertical lines they span the range the axes show, of which at most the upper limit changes, and only on request. Scatter plots show the requested columns, with the contours and colour bar asked for.",
 ["inputs", "histories", "configurations"], "all problems, dimensions, plotted indices and preceding histories",
 "One 1-D identity problem is plotted; curve peaks are checked to 0.1.",
 [B, P], [("plot_param_space, plot_obs_space, plot_params_2d, plot_qoi", B), ("plot_dist, build_nd_mesh_grid, plot_vert_line", P)], ["data of the drawn artists"])

prop("C32", "Plotting only draws, and only on the given axes",
 "Plotting any problem leaves its domain, samples, weights, estimates and expected ratio, and the option dictionaries, arrays and data supplied by the caller, as well as the global random state, exactly as they were, however often it is repeated; suppressed curves are not drawn. Everything is drawn on the axes passed in (or on new ones when none are given), never on another figure.",
 ["histories", "inputs"], "all plotting calls and repetitions on all problem kinds",
 "Tests look at the lines of one plot; none compares the problem before and after.",
 [B, P], [("plot_* methods", B), ("plot_dist, plot_vert_line, save_figure", P)], ["problem state and artists before/after"])

prop("C33", "Computations never modify their inputs, each other, or global random state",
 "No constructor, solver, transformation or pre-processing call writes to the arrays, lists or dictionaries it is given, the answers of a density, Bayes or linear-Gaussian problem do not change when the caller later modifies the arrays it was built from, and operations on one problem never change the answers of another. Calls that do not document randomness neither consume nor reseed the global random state, and repeating a call with equal inputs gives identical results.",
 ["inputs", "histories"], "all public computations, interleaved over several problems",
 "Tests build isolated problems and never re-read their inputs.",
 [B, F, U, N, PP], [("copying constructors", B), ("pure functions", U)], ["argument digests, results and RNG state around every call"])

prop("C34", "Data-driven wrappers build the problem their arguments describe",
 "The wrapper for density problems draws one noise vector of the requested size and level, adds it to the first observations of the true signal and produces the problem whose predictions are the weighted mean error of the corresponding outputs (one column per group when a split is given, restricted to available observations); the Bayes wrapper produces the problem with a normal likelihood around that noisy data; the data-constructed wrapper equals building and configuring the spatio-temporal problem by hand. Requests for fewer than one or more than the available observations are refused, and omitted optional fields are treated as absent.",
 ["inputs", "configurations"], "all sample sets, outputs, observation counts, splits and optional fields",
 "Not tested.",
 [F, B], [("mud_problem, map_problem, data_prob", F)], ["returned problems' samples, predictions and estimates"])

prop("C35", "Example data generators honour their parameters",
 "The polynomial example returns samples from the requested initial density (uniform on the requested domain when none is given), their exact powers, and data with the requested mean and standard deviation (the mean itself for a single datum); the exponential-decay examples return simulations that solve the decay model at the returned samples and times; random linear problems are consistent with their returned true parameter and seed; linear data generators scatter around the operator applied to the reference point with the requested noise, one data set per quantity of interest, and the density, Bayes and temporal identity examples estimate the true value within sampling error.",
 ["inputs", "configurations"], "all documented parameter choices of the example generators",
 "Defaults of the 1-D identity example are used as fixtures and checked to one decimal; most generators are never called.",
 [X + "simple.py", X + "exp_decay.py", X + "linear.py"], [("polynomial_1D_data, identity_1D_*", X + "simple.py"), ("exp_decay_1D/2D", X + "exp_decay.py"), ("random_linear_problem, random_linear_wme_problem, noisy_linear_data, rotation_map", X + "linear.py")], ["returned data and problems"])

prop("C36", "Seeded example runs are reproducible and honour their options",
 "Running any example entry point or command twice with the same seed and options gives identical printed results and returned problems, regardless of what ran before and without touching inputs; a different seed gives different data. The requested noise level, sample counts, sensor counts, component counts and time windows are the ones actually used, and printed estimates and expected ratios are those of the problems solved.",
 ["inputs", "configurations", "histories"], "all example commands, seeds and option values, in any order of runs",
 "One seed per command is compared against recorded output; most commands only check the exit code.",
 [X + "examples.py", X + "poisson.py", X + "adcirc.py", X + "linear.py", X + "comparison.py"], [("seed handling", X + "examples.py"), ("load_poisson_prob, run_2d_poisson_sol, run_2d_poisson_trials", X + "poisson.py"), ("load_adcirc_prob, adcirc_time_window", X + "adcirc.py")], ["stdout, returned problems, recorded constructor/measurement events"])

prop("C37", "Example outputs are complete: every requested figure and table row appears",
 "Each example command writes one non-empty image file per requested figure, under the requested directory only and under distinct names (so that results for different trials, component counts or amounts of data do not overwrite each other), and nothing when saving is not requested; figures not requested are not written. Result tables contain exactly the requested columns and exactly the rows whose search column matches the pattern, in order.",
 ["inputs", "configurations"], "all commands, figure selections, trial lists and result tables",
 "CLI tests check exit codes only; the table printer has two doctests.",
 [X + "examples.py", X + "adcirc.py", X + "poisson.py", X + "linear.py", X + "comparison.py", P], [("save_figure", P), ("print_res", X + "examples.py"), ("per-figure selection", X + "linear.py")], ["files created, returned table text"])

prop("C38", "The boundary-condition expression is the drawn piecewise-linear spline",
 "For any list of interior values, the boundary expression generated for the forward solver evaluates, everywhere on the unit interval, to the piecewise-linear function through those values at equally spaced interior knots and zero at both ends - the same function that is drawn for that parameter and used to fit the closest parameter.",
 ["inputs"], "all numbers of knots, knot values and evaluation points",
 "Needs FEniCS in the existing test, which is not installed; never evaluated.",
 [X + "fenics.py", X + "poisson.py"], [("piecewise_eval_from_vector", X + "fenics.py"), ("plot_solution_spline, spline_objective_function_2d", X + "poisson.py")], ["value of the generated expression, drawn lines, objective value"])

prop("C39", "Linear-problem plots show the problem's own geometry",
 "Contour lines drawn for a linear problem pass through the given reference point and lie in the level set of their row (its offset and observation, when no reference is given); solution markers sit at the initial mean and at the MUD, MAP and least-squares points of the problem, connecting lines join the mean to them, and filled contours show the requested functional on the requested window. Chain plots show exactly the links of the iterative solution in order, and error plots exactly the errors to the given reference.",
 ["inputs", "configurations"], "all two-parameter linear problems, references, row subsets, terms and chains",
 "Contour plots are drawn once without looking at the artists; chain plots are never drawn.",
 [B, P], [("LinearGaussianProblem.plot_fun_contours/plot_contours/plot_sol", B), ("IterativeLinearProblem.plot_chain/plot_chain_error", B), ("plot_contours, plotChain", P)], ["data of the drawn artists"])

prop("C40", "Spatio-temporal plots show the selected data at the selected places",
 "Time-series plots show the problem's measurements at the requested sensor and times, together with curves each of which is the simulated series of one sample at that sensor, at most the requested number of them. Sensor scatter and contour plots show the coordinates of the selected sensors coloured by the requested values, with the requested marker points on top. Component plots show every vector's entries in order. Style options and colour bars are applied as requested.",
 ["inputs", "configurations"], "all data sets, sensor and time selections and sample counts",
 "Only drawn through command-line smoke tests that check exit codes.",
 [B], [("SpatioTemporalProblem.plot_ts", B), ("sensor_contour_plot, sensor_scatter_plot", B)], ["data of the drawn artists"])

prop("C41", "Generated data sets pair every sample with its own solution",
 "A generated boundary-problem data set contains the requested numbers of samples and sensors inside the requested boxes; every stored value is the forward solution for that sample's boundary condition at that sensor, the true values and reference field are the forward solution for the true boundary condition with the requested amplitude, and the recorded domain is the requested one. The same seed gives the same data set, a written file holds exactly the returned data and loads as a problem, files of different sizes have different names, nothing is written when saving is not requested, and bounds of different length or a missing solver library are refused.",
 ["inputs", "configurations"], "all sizes, boxes, dimensions, amplitudes and seeds",
 "The solver library is not installed where the tests run, so the generator is never executed.",
 [X + "fenics.py", X + "examples.py"], [("run_fenics, fenics_poisson_solve", X + "fenics.py"), ("poisson_generate", X + "examples.py")], ["returned data set, written file, boundary expressions passed to the solver"])


out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as fp:
    for r in R:
        assert len(r["title"]) <= 80, (r["id"], len(r["title"]))
        fp.write(json.dumps(r) + "\n")
print(len(R), "properties")
