NOTES = {
'C01': dict(
  oracle='For symbolic statistic, weight, bin and mask cells the sums of weighted statistics, sums of weights and their ratio are written out per output cell and bin; every cell of the real result (values, NaN flag, dims, labels) must equal it. Masked cells carry a symbolic value and NaN flag, so independence of their content is part of the equality. Every subset of reduced dimensions, masked/skipna combination, 0-2 weightings and binnings, masks over fewer dimensions than the statistic, variables lacking dimensions.',
  why='A wrong interaction (mask x skipna x bin x weight) needs a particular NaN/mask/zero-weight pattern; all of them are covered at once.', cost='15 s'),
'C02': dict(
  oracle='Symbolic statistic split at every position; partial states are summed in every order and grouping; result must equal the all-at-once state cell by cell. States over different label sets (every overlap up to 3 labels, label values symbolic positions) must merge to the label-wise sum over the union.',
  why='Alignment bugs show only for particular overlaps of labels and orders.', cost='75 s'),
'C03': dict(
  oracle='Two-stage reduction vs one-stage; dot vs the explicit sum; tree/dataset round trips compare the dictionary of statistics, variables, coords and cells; NaN flags symbolic.', cost='100 s'),
'C04': dict(
  oracle='Membership of a point is written in exact real arithmetic (latitude interval, longitude interval modulo 360 with wrap) over symbolic coordinates and limits; compared with the bin mask and the statistic routed to that bin. Band binnings: every point of the range in at least one band, interior points in exactly one.',
  why='All coordinates, including negative zero-crossing and multi-turn longitudes, rather than a fixed grid.', cost='10 s'),
'C05': dict(
  oracle='Bins recomputed from symbolic coordinates: equality, left-closed intervals, calendar fields (own proleptic Gregorian formula over seconds), elapsed units, set membership; labels compared with membership; complements and global bins.',
  why='Every second of 2019-2025 is covered, i.e. all leap days, year ends and unit boundaries.', cost='10 s'),
'C06': dict(
  oracle='Cell bounds in exact arithmetic, sin uninterpreted but monotone; weights proportional to differences, positive, mean one, invariant under reversal; tiling: bounds of neighbours coincide.', cost='8 s'),
'C07': dict(
  oracle='Times are opaque symbols; the list of visited (init, lead) pairs must be the full product in order; len, getitem (also negative and out of range), iteration and offsets agree.', cost='5 s'),
'C08': dict(
  oracle='For each class a family of instances differing in one parameter is evaluated together, in both orders, and the values must equal those of each metric evaluated alone, cell by cell on symbolic data.',
  why='Tests evaluate one parameterisation at a time, so name collisions cannot appear.',
  notes='FSS(3) and FSS([3]) legitimately differ in output dims and are not compared with each other.', cost='13 s'),
'C09': dict(
  oracle='Textbook formulas per cell, NaN flags included; RMSE via its square; MAE<=RMSE and |ACC|<=1 as polynomial inequalities; climatology entries selected by an oracle calendar over symbolic initialisation times.', cost='8 s'),
'C10': dict(
  oracle='Per-cell table by case distinction on (p, t, NaN); scores as rational functions of a symbolic table, ranges as inequalities; the same through the Aggregator with symbolic weights; swap symmetry.', cost='6 s'),
'C11': dict(
  oracle='SEEPS written from its definition (three categories, 1/p1 weights, p1 mask limits, both masks, wet/dry thresholds) with symbolic dry fraction and time-selected climatology; RPS as sum of squared CDF differences; reliability counts per bin; interval statistics from order statistics of the ensemble; Opportunism from its averaged parts.', cost='65 s'),
'C12': dict(
  oracle='Each transform recomputed per cell (strict/non-strict comparisons, NaN propagation, bin/CDF edges, interval sides, Weibull ranks, label and name changes); transform lists compared with the composition in order, applied to predictions, targets or both; wrapped metrics equal the metric of the transformed data; threshold selection by symbolic valid time.', cost='5 s'),
'C13': dict(
  oracle='Skill and spread as mean absolute differences over valid members and pairs, fair and standard divisors; sorting and pairwise algorithm equal each other and the definition for all ties; permutation invariance, translation and scale; CRPS >= 0 (standard), zero for equal members; NaN members with skipna; single member fair = NaN.', cost='35 s'),
'C14': dict(
  oracle='Definitions of variance, unbiased MSE, spread-skill, ensemble RPS, exceedance, Wasserstein (scipy executed symbolically), rank histogram (ties shared as documented), relative economic value over all contingency frequencies and cost/loss ratios, threshold selection maximising value, averages over members.', cost='50 s'),
'C15': dict(
  oracle='Window averages written as explicit sums over the window (wrapped or excluded), compared cell by cell; FSS against 1 - FBS/reference over jointly valid cells with symbolic masks/NaN; range [0,1] and one for identical fields as inequalities.', cost='165 s (one harness with a 12-bit mask dominates)'),
'C16': dict(
  oracle='Padding, cropping, subsampling: expected index lists over symbolic limits; interpolation: exact piecewise-linear formula at symbolic query points, incl. the wrap cell, grid-point reproduction and between-ness; altitude adjustment for every altitude difference; inputs compared before/after; composition order.',
  notes='Excluded after study: two or more orthogonal fixed coordinates with extrapolation give NaN out of bounds (xarray/interpn semantics); station coordinates conflicting with the grid raise; an empty reference sharing dimensions with the grid.', cost='40 s'),
'C17': dict(
  oracle='Issue times, latencies and query times are integer symbols; the loaded field must be the one of max{issue : issue + latency <= query}, over sources with the tie rule; no available issue must raise.',
  notes='Lead-time slices are unsupported by the wrapper (they raise).', cost='6 s'),
'C18': dict(
  oracle='Stores hold one symbol per (time, lead); the loaded chunk must hold the symbol of the requested times for symbolic requests; climatologies by an own day-of-year/hour formula; the recorded order of selection, renaming, computation, interpolation and mask steps.',
  notes='add_nan_mask_to_data adds the coordinate to the arrays it is given (modifies in place the loader-owned arrays), which is not claimed either way.', cost='15 s'),
'C19': dict(
  oracle='Observation and query times are minute symbols; an observation must appear exactly when its time is within the window (tolerance: half-open, the end included only with include_slice_end_time), found only in opened partitions; duplicates resolved by time distance; METAR flags per cell. Replays write real parquet files.', cost='60 s'),
'C20': dict(
  oracle='The real DoFns and CombineFns are run with chunks, orders, bundle splits and merge shapes as solver choices; the resulting state and metrics must equal the single pass and a direct definition. Ragged sparse chunks, masks, skipna, time dimensions reduced or not, unaggregated output with its template.', cost='60 s'),
'C21': dict(
  oracle='Model file system: every call of the real atomic_write can fail before or after its effect, or stop the process; writes can be cut at any byte; two writers interleave at every call. In every reachable final (and crashed) state the destination is absent/old/new complete; errors are the original ones; temp files are gone. Replays use a real directory.',
  notes='The deciding encoding is the real generator atomic_write over stubs of fsspec calls; its states are symbolic paths.', cost='32 s'),
'C22': dict(
  oracle='Estimate, standard error, degrees of freedom, interval and p-value written from the definitions (IID, Geer AR(2), Lazarus EWC) over symbolic units; consistency p < alpha <=> null outside interval from the t axioms; shift/scale invariance; NaN and spacing rules; constant units.',
  notes='Geer with 4 units: standard error only (interval follows from shared code with 3 units).', cost='65 s'),
'C23': dict(
  oracle='Random draws are symbols constrained to numpy\'s contract; each replicate must equal the metric of the resampled sums and weights; counts add to n; block indices contiguous modulo n; quantiles by the linear interpolation definition, p-values as tail fractions (monotone, ties), consistent with intervals.',
  notes='IID and cluster bootstraps with a NaN unit give NaN for every replicate. p-values with 4 or more replicates are checked for known replicate patterns and a symbolic null. Assumed: a metric variable named like a statistic variable depends only on it (documented); one randint and per-step rand/randint calls in the index sampler.', cost='13 s'),
'C24': dict(
  oracle='All methods on the difference metric equal the direct paired computation; flipped and self comparisons; mismatched units raise; common metrics/variables only.', cost='10 s'),
'C25': dict(
  oracle='jax.make_jaxpr of the real function is interpreted symbolically; values must equal the metric plus the exact derivative (own symbolic differentiation of the textbook formula) applied to the deviation of the unit.', cost='12 s'),
'C26': dict(
  oracle='combine_results.main() is executed with symbolic file contents, axes and subsets of files; each cell of the table equals the file cell of that model, year, resolution and renamed variable.',
  notes='open_nc treats any unreadable file as missing (broad except; noted, not claimed). If no variable at all has a level the chunking step fails; some variable with level is assumed.', cost='12 s'),
'C27': dict(
  oracle="run_benchmark_evaluation.main() is executed whole (flags, loaders, metrics, regions, pipeline, file name) on in-memory stores of symbolic values; each value of the written table equals the metric by its textbook definition on the stores' cells: weighted bias, (R)MSE, activity, ACC, wind vector RMSE, SEEPS, fair CRPS, unbiased spread/skill, ensemble mean RMSE. The regions are the published bounds. The evaluated (initialisation, lead time) pairs and the file name are compared with the documented rules for every listed model, year and range.",
  notes='Sums are compared as polynomials, and square roots and quotients of equal polynomials share one term (symx core.rep), so the order of summation does not matter. Keisler NaN masking is not encoded here (C01, C15 decide masks). A surface-only evaluation fails loudly in the script because the stores lack a level; at least one level variable is assumed.', cost='100 s'),
'false alarms': [
  'C01: a NaN times an exactly zero weight is not determined by BLAS; excluded from the claim (cells with zero weight do not "count").',
  'C04: longitude limits equal modulo 360 are ambiguous (full circle or meridian); excluded.',
  'C20: an unmasked NaN outside a bin spoils that bin by documented design; binned harnesses carry only masked NaN.',
  'C23: independence of draws between variables for different block lengths is by design; the statement was weakened to same block length.',
  'C24: geer with its constant fallback is compared only for self-comparison; its estimate term is decided in C22.',
],
'seeding': '',
}
