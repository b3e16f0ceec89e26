WHY = {
"C01": "Recomputes initial x weight x observed / predicted for every sample from the densities the client handed over; the answer must be a complete sample row whose value is maximal to 1e-9. 1-5 parameters, 1-5 observables, 1 to several thousand samples; degenerate inputs (ties, zero weights, disjoint supports, overflow) included. Tests look at a handful of identity maps.",
"C02": "Exhaustive histories up to a bounded length plus random long ones; the shadow model forgets nothing, so a cache that outlives a setting shows as a different answer from a freshly built problem.",
"C03": "Weights of every form; semantics compared with the element-wise product, invariance under scaling, and removal of zero-weight samples.",
"C04": "All 32 subsets of unset inputs in rotation; the default densities themselves are seen through the plots (drawn marginals over a window wider than the domain), since the MUD point cannot reveal the height of a uniform density.",
"C05": "Exact recomputation (monitor) and Monte-Carlo cases with analytically known reachable mass.",
"C06": "Metamorphic: permutation and affine changes of units, including factors that push densities far below 1e-12.",
"C07": "As C01/C02 for Bayes problems.",
"C08": "Log values recomputed independently; underflow, disjoint supports and priors vanishing at likelihood peaks are generated on purpose.",
"C09": "Optimality conditions (residual, nearest to the mean in the initial metric) and an SVD/Cholesky reference; all shapes and ranks; observations whose units differ by up to 1e5.5.",
"C10": "Stacked least squares reference, perturbation test, small/large noise limits, units of parameters and data over twelve decades.",
"C11": "Each answer is judged as if it were the only request; histories of methods and truncations.",
"C12": "Defining properties: A U A' equals the data covariance, uninformed directions keep the initial covariance.",
"C13": "Cholesky formulas for every term and output form; no sampled point may beat the solver's answer.",
"C14": "Cholesky quadratic forms; scalars, rows, columns, several outputs, correlated covariances.",
"C15": "All argument forms of each entry point; the result's shape follows the form of y.",
"C16": "Loop formula, all data forms, and distribution tests over repeated noise.",
"C17": "The affine map is evaluated at random parameters and compared with the error map of the operator's predictions; up to 120 observations, operator entries over 14 decades.",
"C18": "Every link of a chain recomputed from its predecessor; repeated rows, orders, epochs, repeated solve calls.",
"C19": "Distance to known exact solutions after every link.",
"C20": "Direct indexing of the study's cube by every kind of selection (boolean, integer, repeated, negative, slices).",
"C21": "A shadow acceptance model; each refusal is followed by a snapshot comparison, and the study must accept consistent data afterwards.",
"C22": "Own SVD/PCA of the standardised residuals; signs fixed through the returned vectors.",
"C23": "Pooled standardised draws (KS, mean, variance, correlations); seeds, seed 0 included, replayed.",
"C24": "Every stored field compared with what was supplied; mapping, file and constructor must agree.",
"C25": "Distances recomputed for every candidate; ties accepted.",
"C26": "Defining properties and an own eigen-decomposition.",
"C27": "Defining properties on the standardised data.",
"C28": "Matrices with prescribed singular values down to 1e-13 of the largest; count, orthonormality, annihilation, completeness.",
"C29": "Eckart-Young optimality for every rank.",
"C30": "Grid points compared as sets with the box requested.",
"C31": "Drawn line data compared with marginals recomputed by summation over an independent grid; discretisation slack measured by a second grid.",
"C32": "Inventory of every figure, axes and artist; decoy figures stay current; options digested.",
"C33": "Catalogue of all public computations under digests of arguments and of both global generators; interleavings of several problems.",
"C34": "Noise recovered from the returned problem (or from the likelihood handed over) and judged; everything else recomputed.",
"C35": "Documented model, exact or within six standard errors.",
"C36": "Runs repeated under the same and other seeds after unrelated activity; taps record the problems really built.",
"C37": "Directory listings, decoded images, figure content recorded at save time.",
"C38": "Expressions compiled (g++) and evaluated like the forward solver would.",
"C39": "Line, marker and level data against the problem's geometry.",
"C40": "Series and markers against the study's cube.",
"C41": "A stand-in solver whose field reveals the parameter and the place it was computed for.",
}
MISSED = """
* `initial-widest-range` (C04): default densities were only seen through ratios -> scenario *drawn defaults*.
* `mud-pinv-cutoff` (C09), `map-weak-prior-pinv` (C10): operators were moderately scaled -> scenarios *scales*.
* `seed-zero-unseeded` (C23): seeds started at 1 -> seed 0 is drawn in a quarter of the cases.
* `wme-linear-list-sigma` (C17): at most 30 observations and entries above 1e-2 -> widened.
* `nullspace-rcond-ignored` (C28): no singular values between 1e-9 and rounding -> added.
* `vert-line-autoscale` (C31): the shown range was not observed -> scenario *vertical lines*.
* Batches c and d: size thresholds (thousands of samples or mesh points, hundreds of columns), other
  units of every input, settings repeated or switched off, a close rival of the winning sample ->
  *large data sets*, *larger tables*, *units*, *sensitivities*, *planted winner*, "-again" steps in histories.
* Batch e: `bandwidth-number-ignored` (C04), `data-3d-resampled` (C21), `errors-stop-at-zero` (C19),
  `fun-contours-window` (C39), `iter-method-restart` (C18), `label-on-current-axes` (C32),
  `load-distribution-literal` (C24), `nullspace-unconjugated` (C28), `pca-unit-std-kept` (C26),
  `posterior-mean-shift` (C08), `updcov-operator-identity-prior` (C12), `vectors-common-axis` (C40) were
  missed at first: narrow bandwidths, data of the right total size, references that are links,
  rectangular windows, mixed methods, labels and limits of other axes, colliding field names, complex
  matrices, standardised tables, samples far from the data, other operators and ragged vectors were added.
* Batch f: 19 of 43 missed at first. `mud-inside-domain-only`, `prior-restricted-domain` (stated domains
  narrower than the samples), `map-alpha-twice-all` (solve("all")), `functionals-cached-array`,
  `solcov-from-fun` (arrays overwritten in place, rank-deficient covariances), `iter-zero-row-skipped`
  (rows of zeros), `iterate-third-epoch`, `chain-recent-epochs` (many epochs), `domain-nan-accepted`,
  `measurements-broadcast` (NaN bounds, too few measurements), `pca-record-first` (a second map from one
  study), `noise-antithetic`, `noise-clipped` (scenario *long signals*: tails and correlation at every lag),
  `svd-gram-tall` (*tall and nearly dependent*), `nullspace-double-eps` (*single precision*),
  `rank-updates-float32` (*complex and narrow types*), `linewidth-rcparams` (global plot settings),
  `split-large-group-sd` (groups of ten and more), `contour-lines-options-lost` (line options).
* Batch g: 16 of 41 missed at first. `mud-small-residual-skipped` (scenarios *units* of C09-C13, C18:
  powers of two on data and parameters), `lin-prob-alpha-floor` (regularisation over 18 decades),
  `wme-default-sd-first` (spread of long drifting data), `epoch-duplicate-rows`,
  `iter-entry-single-epoch-order` (the same quantity observed again), `errors-column-max` (many parameters),
  `closest-expanded` (far origins), `residual-clip` (precise measurements), `wrapper-weights-last` (several
  weight vectors), `pca-options-dropped` (options of the decomposition), `svd-tiny-columns` (column units),
  `nullspace-rcond-zero` (thresholds of nothing), `title-on-figure` (artists of the figure itself),
  `load-second-ignored` (scenario *another study*), `weights-tiny-unnormalised` (weight units),
  `contour-annotation-corner` (places of notes).
* Batch h: 7 of 20 missed at first. `normalize-large-other-norm` (up to 20 000 weights),
  `data-weights-memory-order` (column-major weights), `noise-seed-folded` (seeds alike in their first or last
  digits), `closest-single-precision` (scenario *larger studies, close candidates*), `split-repeats-dropped`
  (groups naming an output twice), `posterior-sum-test` (posteriors past the largest number),
  `wme-integer-predictions` (predictions in a smaller number format than the data).
"""
