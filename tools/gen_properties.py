"""Writes properties.jsonl (kept as a script so that ids and text stay in step)."""
import json, os
P = []


def prop(id, title, statement, over, text, why, files, mech, observe, hook=None):
  assert len(title) <= 80, title
  P.append(dict(id=id, title=title, statement=statement,
                quantifier=dict(over=over, text=text), why_tests_cant=why,
                anchors=dict(files=files, mechanism=[
                    dict(name=n, where=w) for n, w in mech],
                    observe_at=observe, hook_needed=hook)))

W = 'weatherbenchX/'
prop('C01', 'Aggregation is the exact weighted mean over the selected cells',
     'For every statistic array, weighting, binning and set of reduced dimensions, the aggregated mean of a bin equals sum(weight*bin*value)/sum(weight*bin) over exactly the cells of that bin, with all weights and all bins multiplied. With masking on, cells whose mask is False never influence the result whatever they contain (including NaN); with NaN-skipping on, NaN cells are dropped from both sums; otherwise a NaN in a cell that counts (non-zero weight) makes the result NaN, never a silently wrong number. Variables lacking a reduced or binned dimension are left out rather than aggregated differently.',
     ['inputs', 'configurations'], 'all values, NaN patterns, masks, weights and bin memberships, and all reduce/mask/skipna settings',
     'Tests compare a handful of random arrays against xarray means; the space of NaN x mask x bin x weight interactions is not sampled and a leak needs a specific combination.',
     [W + 'aggregation.py'], [('Aggregator.aggregate_stat_var masking and skipna', W + 'aggregation.py'), ('Aggregator.aggregation_fn dot product', W + 'aggregation.py')],
     ['AggregationState.mean_statistics', 'sum_weighted_statistics / sum_weights'])
prop('C02', 'Merging partial aggregates does not depend on chunking or order',
     'Splitting the data into chunks along any dimension, aggregating each chunk separately and summing the partial states in any order and grouping gives the same sums, weights and means as aggregating everything at once. The empty state is neutral on either side, and summing only empty states stays empty. Chunks whose coordinate labels differ are combined without losing a label and without letting absent labels change any value.',
     ['inputs', 'histories', 'configurations'], 'all values, all splits of the data, all merge orders and groupings, all label overlaps up to the bound',
     'Tests add two or three fixed chunks in one order; associativity, neutrality and label-union behaviour must hold for every merge tree a distributed runner may choose.',
     [W + 'aggregation.py', W + 'xarray_tree.py'], [('AggregationState.sum / __add__ / zero', W + 'aggregation.py'), ('combining_sum outer join', W + 'aggregation.py'), ('map_structure', W + 'xarray_tree.py')],
     ['AggregationState after sum', 'mean_statistics'])
prop('C03', 'Partial aggregates can be reduced later and stored without change',
     'Reducing some dimensions first and the rest later gives the same aggregate as reducing them all at once; NaN sums stay NaN. Converting an aggregation state to a tree or dataset and back returns the same statistics, variables, coordinates and values for both sums and weights, never swapped or merged. Taking weighted combinations of a state along a dimension applies the same combination to sums and to weights.',
     ['inputs', 'configurations'], 'all values and NaN patterns; any nesting of statistics and variables; any split of the reduced dimensions',
     'Tests round-trip one fixed state; equality must hold for all names, nesting and values.',
     [W + 'aggregation.py'], [('sum_along_dims, dot, map', W + 'aggregation.py'), ('to/from_dataset, to/from_data_tree', W + 'aggregation.py')],
     ['AggregationState.sum_along_dims', 'AggregationState.from_dataset(to_dataset)'])
prop('C04', 'Geographic bins contain exactly the grid points they name',
     'A rectangular region contains exactly the points whose latitude lies within its limits and whose longitude, modulo 360 degrees, lies within its possibly date-line-crossing limits, whatever longitude convention the data or the limits use. Latitude and longitude band binnings cover every point of their range, assign every interior point to exactly one band and only band-edge points to two. Land and sea bins are complementary at the stated threshold, the global bin contains everything, and land-only region bins are the region intersected with land.',
     ['inputs', 'configurations'], 'all latitudes, longitudes, region limits, band widths and land fractions',
     'Tests use a few regular grids and regions; wrap-around and edge conditions are rare points in a continuous space.',
     [W + 'binning.py'], [('_create_lat_mask, _create_lon_mask, Regions, LatitudeBins, LongitudeBins, LandSea', W + 'binning.py')], ['create_bin_mask'])
prop('C05', 'Coordinate, time and set bins classify every element correctly',
     'Binning by coordinate value, coordinate intervals, time unit, sets of time units, or sets of labels puts an element in a bin exactly when its coordinate satisfies that bin definition: equal values, left-closed right-open intervals, the calendar or elapsed unit of its time, or set membership. Bins by exact value or unit partition the elements; complement bins are the exact complement and a global bin contains everything. Bin labels name the bin whose membership they carry.',
     ['inputs', 'configurations'], 'all coordinate values, bin edges, times and sets within the bound',
     'Tests check a few fixed coordinates; the partition claim is over all coordinate values including edges and negative or large lead times.',
     [W + 'binning.py'], [('ByExactCoord, ByTimeUnit, ByTimeUnitSets, ByTimeUnitFromSeconds, ByCoordBins, BySets', W + 'binning.py'), ('vectorized_coord_mask, _extract_time_unit', W + 'binning.py')], ['create_bin_mask'])
prop('C06', 'Latitude weights are the areas of a tiling of the sphere',
     'For every strictly monotonic latitude axis, the weight of a row is proportional to sin(upper)-sin(lower) of a cell bounded by midpoints to its neighbours, with outer bounds extrapolated by half a step and clipped to the poles, so cells tile the covered band without gap or overlap. All weights are positive, have mean one when normalised, and reversing the latitude axis only reverses the weights. A statistic without a latitude dimension is unweighted, and a non-monotonic axis is rejected.',
     ['inputs', 'configurations'], 'all strictly monotonic latitude vectors in [-90, 90] up to the bound, either direction',
     'Tests check one uniform grid; positivity, tiling and reversal must hold for any spacing.',
     [W + 'weighting.py'], [('latitude_cell_bounds, cell_area_from_latitude, GridAreaWeighting', W + 'weighting.py')], ['GridAreaWeighting.weights'])
prop('C07', 'Time chunks partition the forecast times exactly once, in order',
     'For every number of initialisation and lead times and every chunk size, the chunks visit each (initialisation, lead) pair exactly once, in order, with no empty chunk, and the reported number of chunks, indexed access, iteration and chunk offsets all agree. A missing chunk size means one chunk. Lead times given as a slice are passed unchanged with every initialisation chunk, and slices without both ends or with a step are rejected.',
     ['inputs', 'configurations'], 'all sizes and chunk sizes up to the bound, all valid indices',
     'Tests use two or three fixed sizes; off-by-one losses depend on the remainder of sizes by chunk sizes.',
     [W + 'time_chunks.py'], [('TimeChunks.__len__/__getitem__/__iter__/iter_with_chunk_offsets', W + 'time_chunks.py')], ['list(TimeChunks)', 'iter_with_chunk_offsets'])
prop('C08', 'Metrics evaluated together give the values they give alone',
     'Computing several metrics in one evaluation gives every metric the same per-variable values as computing it on its own, for every combination of metric types and parameters, because statistics are only shared when they are identical computations; the combined table of metric values keeps every value and label of every metric. Per-variable metrics use exactly the variables common to predictions and targets, each independently of the others.',
     ['inputs', 'programs', 'configurations'], 'all pairs of the library metrics with differing parameters, all values',
     'Tests evaluate fixed metric sets; interference appears only for particular parameter pairs whose statistics collide.',
     [W + 'metrics/base.py', W + 'metrics/deterministic.py', W + 'metrics/categorical.py', W + 'metrics/probabilistic.py', W + 'metrics/wrappers.py', W + 'metrics/spatial.py'],
     [('Statistic.unique_name', W + 'metrics/*.py'), ('compute_unique_statistics_for_all_metrics', W + 'metrics/base.py'), ('compute_metrics_from_statistics', W + 'metrics/base.py')], ['compute_metric_values_for_single_chunk'])
prop('C09', 'Deterministic scores equal their definitions and bounds',
     'Error, absolute error, squared error, bias, MSE, RMSE, MAE, error-exceedance, wind-vector, anomaly-correlation and prediction-activity scores equal their textbook formulas for every input, are zero exactly for a perfect forecast where applicable, and satisfy MAE<=RMSE and |ACC|<=1. A NaN input cell gives a NaN statistic in that cell and nowhere else. Climatology-based scores use the climatology of the valid time.',
     ['inputs'], 'all prediction, target and climatology values including NaN',
     'Tests use one synthetic dataset with perfect or constant-offset forecasts.',
     [W + 'metrics/deterministic.py'], [('Error, AbsoluteError, SquaredError, ErrorExceedance, WindVectorSquaredError, Anomaly statistics', W + 'metrics/deterministic.py'), ('Bias, MAE, MSE, RMSE, WindVectorRMSE, ACC, PredictionActivity', W + 'metrics/deterministic.py')], ['Metric values', 'Statistic.compute'])
prop('C10', 'Contingency scores equal their definitions for every table',
     'For binary forecasts and observations, exactly one of hit, false alarm, miss and correct negative is set for each valid pair and all four are NaN when either is NaN. CSI, accuracy, recall, precision, F1, frequency bias, false alarm rate, heidke skill, equitable threat and extremal dependency scores equal their textbook formulas of the averaged table and stay within their ranges. Swapping forecast and observation swaps misses and false alarms only.',
     ['inputs'], 'all contingency tables (all non-negative mean frequencies summing to one) and all binary/NaN inputs',
     'Tests check a few hand-written tables.',
     [W + 'metrics/categorical.py'], [('TruePositives..TrueNegatives', W + 'metrics/categorical.py'), ('CSI, Accuracy, Recall, Precision, F1Score, FrequencyBias and related metrics', W + 'metrics/categorical.py')], ['Metric values', 'Statistic.compute'])
prop('C11', 'Multi-category scores follow their scoring rules everywhere',
     'SEEPS scores each forecast/observation category pair with the published 3x3 matrix for the annual-mean climatological dry probability of that location, with categories bounded by the dry and the climatological wet threshold of the valid time, is zero on the diagonal, and masks exactly the locations whose dry probability is outside the configured limits. Ranked probability, reliability and probability-category statistics equal their definitions on binned inputs, interval statistics (confident, covered, distant) equal theirs, and NaN inputs stay NaN. No category or threshold edge falls outside all categories.',
     ['inputs'], 'all precipitation amounts, thresholds, dry probabilities and category probabilities',
     'Tests use one random field and perfect forecasts; edges between categories have measure zero there.',
     [W + 'metrics/categorical.py'], [('SEEPSStatistic', W + 'metrics/categorical.py'), ('RankedProbabilityScore, Reliability', W + 'metrics/categorical.py')], ['Statistic.compute'])
prop('C12', 'Input transforms binarise, bin and select exactly as declared',
     'Threshold transforms mark a value exactly when it exceeds its threshold, bin transforms set exactly one bin per finite value over the whole real line with right-inclusive edges and distinct labels, cumulative transforms are monotone in the bin, and every transform keeps NaN as NaN. Transforms are applied in the given order to predictions, targets or both as configured, and only selected variables are kept. Metrics wrapped this way equal the metric of the transformed data.',
     ['inputs', 'configurations'], 'all values (including exact edges and NaN), thresholds and transform lists',
     'Tests use a few values; edge ties and NaN x transform order combinations are not sampled.',
     [W + 'metrics/wrappers.py'], [('ContinuousToBinary, ContinuousToBins, ContinuousToCDF, ReLU, EnsembleMean, WrappedStatistic, WrappedMetric, SubselectVariables', W + 'metrics/wrappers.py')], ['InputTransform.transform', 'WrappedMetric'])
prop('C13', 'CRPS is the same proper quantity however it is computed',
     'The ensemble CRPS equals mean|x_i-y| minus half the mean pairwise member distance (with the fair or the standard normalisation as configured), and the sorting-based and pairwise formulas agree for every ensemble including ties. It does not depend on member order, and is non-negative for the standard estimator. NaN members are ignored only when asked, otherwise the score is NaN; with fewer than two members the fair score is NaN or rejected, never a number. The CRPS distance between two ensembles subtracts both spreads with the same options, and is non-negative, symmetric and zero from an ensemble to itself (standard estimator).',
     ['inputs', 'configurations'], 'all ensembles up to the bound, all observations, NaN patterns, fair and unfair, both algorithms',
     'Tests compare on random normal ensembles without ties or partial NaN.',
     [W + 'metrics/probabilistic.py'], [('CRPSSkill, CRPSSpread, CRPSEnsemble, CRPSEnsembleDistance', W + 'metrics/probabilistic.py')], ['CRPSEnsemble values'])
prop('C14', 'Ensemble spread, skill, rank and value scores equal their definitions',
     'Ensemble variance, unbiased ensemble-mean MSE, spread/skill ratios, ensemble ranked probability score, error exceedance, Wasserstein distance and member-averaged statistics equal their defining estimators for every ensemble, do not depend on member order, and when skipping missing members use the actual number of valid members; a missing target gives a missing score. The rank histogram assigns each observation to exactly one rank (the number of members strictly below it). Relative economic value is the stated expense ratio at each decision threshold (or at the chosen threshold per cost/loss ratio), never exceeds one, and is zero for the better of the two constant decisions.',
     ['inputs', 'configurations'], 'all ensembles up to the bound, NaN patterns, cost/loss ratios and thresholds',
     'Tests check asymptotic agreement with random data; estimator bias corrections, ties and NaN counts are not settled by samples.',
     [W + 'metrics/probabilistic.py', W + 'metrics/wrappers.py'], [('EnsembleVariance, UnbiasedEnsembleMeanSquaredError, RankHistogram, EnsembleRankedProbabilityScore, RelativeEconomicValue, WassersteinDistance', W + 'metrics/probabilistic.py')], ['Statistic.compute', 'Metric values'])
prop('C15', 'Fractions skill score uses true neighbourhood averages, within [0,1]',
     'The neighbourhood fraction at a point is the mean of the binary field over the stated square window, wrapping in longitude when configured and excluding points whose window leaves the domain otherwise. The fractions skill score equals one minus the fraction Brier score over its no-overlap reference, lies within [0,1], and is one for identical fields. NaN cells do not silently count as zero: a missing or masked cell makes every point whose window holds it missing or masked, in numerator and reference alike, whatever the order of the dimensions.',
     ['inputs', 'configurations'], 'all binary fields and window sizes up to the bound',
     'Tests use one field; wrap and edge handling depends on window/field size combinations.',
     [W + 'metrics/spatial.py'], [('FSS, neighbourhood averaging', W + 'metrics/spatial.py')], ['FSS values'])
prop('C16', 'Interpolation and regridding helpers preserve values and locations',
     'Longitude padding repeats exactly the cyclic neighbours with consistent coordinates, cropping keeps exactly the points inside the box in both latitude orders (so does clipping a reference to the extent of the data), and sub-sampling keeps exactly the requested points. Linear interpolation reproduces grid values at grid points and stays between neighbouring values elsewhere, including across the date line. Altitude adjustment applies the stated temperature lapse rate and wind factor for every altitude difference within the limit and nothing beyond it, inputs are not modified, and a list of interpolations is applied in order.',
     ['inputs', 'configurations'], 'all field values, query locations and altitude differences within the bound',
     'Tests use one small grid; date-line and boundary queries form thin sets.',
     [W + 'interpolations.py'], [('pad_longitude, InterpolateToReferenceCoords, InterpolateToFixedCoords, CropToBox, altitude adjustment, MultipleInterpolation', W + 'interpolations.py')], ['Interpolation.interpolate'])
prop('C17', 'Real-time latency never lets a forecast use data not yet available',
     'For every schedule of issued forecasts and every latency, the forecast returned for a query time is the most recent one whose issue time plus latency is not after the query time, and no later one. With several sources the freshest available source wins (the one with the largest latency on ties), and the query times and lead times are those asked for. A query with nothing available yet fails rather than returning future data. Options of the wrapped loader (masking, processing, interpolation) still apply.',
     ['inputs', 'histories', 'schedules'], 'all issue schedules, latencies and query times up to the bound',
     'Tests use one 6-hourly schedule; leakage needs a query exactly at or just before an availability instant.',
     [W + 'data_loaders/latency_wrappers.py'], [('XarrayConstantLatencyWrapper, MultipleConstantLatencyWrapper', W + 'data_loaders/latency_wrappers.py')], ['load_chunk'])
prop('C18', 'Loaded predictions, targets and climatologies match the asked times',
     'For every set of initialisation and lead times, predictions are the stored fields at those times, targets are the stored fields at initialisation plus lead, persistence repeats the field at initialisation for all leads, and climatologies give the entry for the day of year and hour of the valid time, with each member of a probabilistic climatology taken from its own year at that day of year and hour. Requested selections, renamings and computation steps are applied, in the documented order, before use. NaN masks mark exactly the non-NaN cells.',
     ['inputs', 'configurations'], 'all stored values; all query times in the stored range, including leap days and year ends',
     'Tests load one small range; leap-day and year-boundary behaviour depends on particular times.',
     [W + 'data_loaders/base.py', W + 'data_loaders/xarray_loaders.py'], [('PredictionsFromXarray, TargetsFromXarray, PersistenceFromXarray, ClimatologyFromXarray, ProbabilisticClimatologyFromXarray', W + 'data_loaders/xarray_loaders.py'), ('DataLoader.load_chunk, add_nan_mask_to_data', W + 'data_loaders/base.py')], ['DataLoader.load_chunk'])
prop('C19', 'Sparse observations are matched to exactly the right time window',
     'For every query the files opened cover the whole time window needed, and the observations kept are exactly those within the stated tolerance of the valid time or the stated interval of lead times (the end itself only when included), none outside and none lost at file boundaries. When duplicates are removed, one observation per station and valid time is kept, the one closest in time. Each observation is labelled with the initialisation and lead time it was matched to and keeps its own time, values and coordinates. Flagged METAR values and fill elevations become missing, and longitudes lie in 0 to 360.',
     ['inputs', 'configurations'], 'all observation times, file partitions, tolerances and query windows up to the bound',
     'There are tests for one station file; window edges and file boundaries are thin sets.',
     [W + 'data_loaders/sparse_parquet.py'], [('file subset selection, filters, duplicate removal', W + 'data_loaders/sparse_parquet.py')], ['SparseObservationsFromParquet.load_chunk'])
prop('C20', 'A distributed evaluation equals the single-pass evaluation',
     'For every chunking of the time axis and every order and grouping in which partial results are combined, the pipeline produces the same metric values and aggregation state as evaluating all data in a single pass. Each partial result lands at the position of its own times, whether or not time dimensions are reduced, and every metric and variable is present exactly once. Unaggregated output contains every statistic at its own initialisation and lead time.',
     ['schedules', 'inputs', 'configurations'], 'all data values, chunkings, element orders and combine trees up to the bound',
     'Tests run one runner schedule on a fixed dataset; order and grouping are chosen by the runner.',
     [W + 'beam_pipeline.py', W + 'beam_utils.py'], [('LoadPredictionsAndTargets, ComputeStatistics, AggregateStatistics, ComputeMetrics DoFns', W + 'beam_pipeline.py'), ('combiners', W + 'beam_utils.py')], ['define_pipeline output'])
prop('C21', 'Output files are written atomically under any failure',
     'Whatever step of writing a metrics or aggregation state file fails or whenever the process stops, the destination path holds either its previous content or the complete new content, never a partial file, also when several workers write the same file at once. A failed write is reported with its own error and leaves no temporary file behind.',
     ['crash_points', 'fault_sequences', 'schedules'], 'every failure point and every crash point of the write sequence, every interleaving of two writers',
     'Tests never inject a failure into a write.',
     [W + 'beam_utils.py', W + 'beam_pipeline.py'], [('atomic_write', W + 'beam_utils.py'), ('WriteMetrics, WriteAggregationState', W + 'beam_pipeline.py')], ['destination path after a fault'])
prop('C22', 'Confidence intervals and p-values are mutually consistent',
     'For every set of per-unit results, the interval is centred on the point estimate, widens with the confidence level, and excludes a hypothesised value exactly when the two-sided p-value is below the significance level. The standard error is the stated function of the sample (independent or autocorrelation-corrected), is invariant to shifting and scales with the data, and p-values lie in [0,1]. Too few units or a missing unit give NaN, unevenly spaced units are rejected by the autocorrelation-corrected methods, and constant units have a zero standard error and a p-value of 0 or 1, never a finite wrong answer.',
     ['inputs', 'configurations'], 'all samples up to the bound, all levels and null values',
     'Tests check coverage statistically on random data.',
     [W + 'statistical_inference/t_test.py', W + 'statistical_inference/base.py', W + 'statistical_inference/utils.py'], [('IID and autocorrelation-robust t-test variants', W + 'statistical_inference/t_test.py')], ['confidence_intervals, p_values, significance_tests'])
prop('C23', 'Bootstrap resamples are genuine resamples of whole units',
     'Every bootstrap replicate is computed from units drawn with replacement from the original ones, always as many as the original, never out of range, in contiguous wrapped blocks for the block methods and whole clusters for the cluster methods, and all statistics entering a value share the same draw (all metrics and variables do for the i.i.d. and cluster methods, and for the block method whenever their block length is the same). Replicate metric values equal the metric of the resampled data, and a missing unit never counts as a value. Intervals and p-values are the stated quantiles and tail fractions of the replicates, in [0,1] and consistent with each other.',
     ['inputs', 'schedules', 'configurations'], 'all random draws and all data up to the bound',
     'Tests run a few seeds and check approximate coverage.',
     [W + 'statistical_inference/bootstrap.py', W + 'statistical_inference/base.py'], [('IIDBootstrap, StationaryBootstrap, ClusterBootstrap', W + 'statistical_inference/bootstrap.py')], ['resampled statistics', 'confidence_intervals', 'p_values'])
prop('C24', 'Comparison with a baseline is the paired difference per unit',
     'Comparing two models reports exactly the main value minus the baseline value for each metric and variable, computed on the same units and, for resampling methods, the same draws. Comparing a model with itself gives a zero difference and comparing in the opposite order flips the sign. Only metrics and variables that both sides have are compared, and states whose experimental units differ are rejected rather than paired up.',
     ['inputs', 'configurations'], 'all pairs of aggregation states and metrics up to the bound',
     'Tests compare one pair of random datasets.',
     [W + 'statistical_inference/baseline_comparison.py', W + 'statistical_inference/utils.py'], [('baseline comparison wrappers', W + 'statistical_inference/baseline_comparison.py')], ['point_estimates', 'metric_values'])
prop('C25', 'Linearised per-unit values reproduce the metric and its derivative',
     'The per-unit values used for nonlinear metrics are the first-order effect of each unit on the metric: they sum or average to the metric itself, have the exact derivative as their deviation, and reduce to the per-unit statistics when the metric is linear. This holds for weighted aggregates with per-unit weights and for every metric built from averaged statistics.',
     ['inputs', 'programs'], 'all per-unit statistics and positive weights up to the bound, all differentiable library metrics',
     'Tests compare a few random cases with finite tolerance.',
     [W + 'statistical_inference/autodiff.py'], [('per_unit_values_linearized_around_mean_statistics', W + 'statistical_inference/autodiff.py')], ['linearised per-unit values'])
prop('C26', 'Published benchmark tables hold each model\'s own metric values',
     'When result files of several models, years and resolutions are combined, every value in the combined table is the value of that metric and variable in the file of that model, year and resolution, under its display name. Missing files leave missing entries, and no metric or variable is dropped, renamed to another or mixed up.',
     ['inputs', 'configurations'], 'all metric values; all subsets of present files and metric/variable sets up to the bound',
     'There are no tests of the benchmark scripts.',
     ['public_benchmark/combine_results.py'], [('process_results, main merge loop', 'public_benchmark/combine_results.py')], ['combined dataset'])
prop('C27', 'The benchmark script scores exactly the forecasts it was asked to score',
     'For the requested prediction, target, resolution, year and optional initialisation and lead time ranges (start inclusive, stop exclusive), the evaluation script writes one file, named after them, that holds every metric of that kind of prediction (deterministic, or for ensembles the ensemble scores) for each variable that prediction and target share, at the configured levels, for each lead time (and initialisation with --temporal), in each published region and its land part by the ERA5 land-sea mask. Every value is the area-weighted metric computed from the prediction and the target (or persistence, climatology, or past years) at the same valid times, whatever the chunk sizes and the latitude order of the stores, and each precipitation accumulation is scored with its own dry threshold.',
     ['inputs', 'configurations'], 'all values of predictions, targets and climatologies on the stated small stores; all listed models, years, ranges, levels, chunk sizes and latitude orders',
     'There are no tests of the benchmark scripts; they combine all parts of the library.',
     ['public_benchmark/run_benchmark_evaluation.py', 'weatherbenchX/beam_pipeline.py'],
     [('main, REGIONS', 'public_benchmark/run_benchmark_evaluation.py')], ['written results'])

with open(os.path.join(os.path.dirname(__file__), '..', 'properties.jsonl'), 'w') as f:
  for p in P:
    f.write(json.dumps(p) + '\n')
print(len(P))
