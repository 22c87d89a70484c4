"""Writes /verif/known_findings.json (curated by hand here)."""
import json, subprocess
def sha(subject):
  out = subprocess.check_output(['git', '-C', '/repo', 'log', '--format=%h %s']).decode()
  for l in out.splitlines():
    h, s = l.split(' ', 1)
    if s == 'fix: ' + subject:
      return h
  raise SystemExit('no commit: ' + subject)
F = []
def finding(prop, harness, label, what):
  F.append(dict(property=prop, harness=harness, label=label, what=what))
FIXED = []
def fixed(prop, subject, what):
  FIXED.append(f'fixed: property={prop} {sha(subject)} {what}')
fixed('C07', 'chunk offsets for a lead_time slice without chunk size',
      'TimeChunks.iter_with_chunk_offsets raised TypeError for a lead_time slice with lead_time_chunk_size=None')
N = ' evaluated together with different %s shared one statistic: all but one metric silently reported the value of another'
for subj, what in [
    ('include spatial_dims in the unique name of RelativeIntensity', 'RelativeIntensity' + N % 'spatial_dims'),
    ('include NaN copying in the unique names of the passthrough statistics', 'Prediction/TargetPassthrough' + N % 'copy_nans flags'),
    ('include the components in the unique name of WindVectorSquaredError', 'WindVectorRMSE' + N % 'wind components (same vector name)'),
    ('include thresholds in the unique name of ErrorExceedance', 'ErrorExceedance' + N % 'thresholds; tuple thresholds raised ValueError'),
    ('include ensemble_dim in the unique name of EnsembleErrorExceedance', 'EnsembleErrorExceedance' + N % 'ensemble_dim'),
    ('include skipna_ensemble in the unique name of EnsembleAveragedStatistic', 'EnsembleAveragedMetric' + N % 'skipna_ensemble'),
    ('include skipna_ensemble in the unique names of the CRPS statistics', 'CRPSEnsemble' + N % 'skipna_ensemble'),
    ('include right_inclusive in the unique name of EnsembleRankedProbabilityScore', 'EnsembleRankedProbabilityScore' + N % 'right_inclusive'),
    ('include the ensemble size in the statistic suffix of RelativeEconomicValue', 'RelativeEconomicValue' + N % 'ensemble_size'),
    ('include bin_dim in the unique name of RankedProbabilityScore', 'RankedProbabilityScore' + N % 'bin_dim'),
    ('include ensemble_dim in the unique names of the interval statistics', 'Confident/Covered/JaccardDistant' + N % 'ensemble_dim'),
    ('include the parameters in the suffix of WeibullEnsembleToProbabilistic', 'WeibullEnsembleToProbabilistic' + N % 'ensemble_dim or skipna')]:
  fixed('C08', subj, what)
fixed('C11', 'propagate NaN through the bin sum of RankedProbabilityScore', 'RankedProbabilityScore of a forecast with a NaN bin summed only the other bins and returned a finite score')
fixed('C12', 'distinct labels for narrow bins in ContinuousToBins', 'ContinuousToBins labelled narrow bins (e.g. 0.001-0.004) identically, so that they could not be told apart by label')
fixed('C12', 'accept tuples of thresholds and shifts in the wrappers', 'ContinuousToBinary and ShiftAlongNewDim raised ValueError for a tuple of values')
fixed('C13', 'honour skipna_ensemble in all terms of CRPSEnsembleDistance', 'CRPSEnsembleDistance(skipna_ensemble=True) returned NaN as soon as any member was NaN')
fixed('C14', 'keep missing EnsembleRankedProbabilityScore values missing with skipna_ensemble', 'EnsembleRankedProbabilityScore(skipna_ensemble=True) returned a perfect 0 for a missing target or a forecast without valid members')
fixed('C14', 'propagate NaN in RankHistogram instead of counting it as a rank', 'RankHistogram counted a NaN target in rank 0 and NaN members as larger than the target')
fixed('C15', 'accept boolean inputs in FSS with a neighborhood size of one', 'FSS with a neighbourhood of one raised TypeError for boolean fields')
fixed('C15', 'average all FSS statistics over the same valid points', 'FSS with a target mask (or NaN and skipna) averaged numerator and denominator over different points: scores below 0, e.g. -5')
fixed('C16', "don't modify the input of GridToSparseWithAltitudeAdjustment", 'the altitude adjustment left a grid_elevation coordinate on the input field')
fixed('C16', 'handle an empty reference in GridToSparseWithAltitudeAdjustment', 'a reference without stations raised KeyError grid_elevation for temperature and wind')
fixed('C17', 'honour add_values_to_coords of the data loader wrapped for latency', 'ConstantLatencyWrapper silently dropped the add_values_to_coords option of the wrapped loader')
fixed('C17', 'skip sources without an available forecast in MultipleConstantLatencyWrapper', 'a query failed with an all-NaN error when one of several sources had nothing available yet although another had')
fixed('C19', 'load the requested lead time interval in SparseObservationsFromParquet', 'a lead time slice with a positive start loaded observations before the initialisation (start was subtracted)')
fixed('C19', 'accept any sequence of variables in SparseObservationsFromParquet', 'a tuple of variables raised TypeError')
fixed('C20', 'support lead time slices in the unaggregated pipeline', 'define_unaggregated_pipeline raised TypeError for every lead time slice (slice step is None)')
fixed('C25', 'support SEDI in statistical inference', 'SEDI called np.log on traced values: TracerArrayConversionError for every t-test or bootstrap interval of it')
fixed('C23', "don't count missing units as zero in StationaryBootstrap", 'a NaN unit entered the resampled sums of StationaryBootstrap as zero with its full weight: finite, biased replicates')
fixed('C23', 'handle tied replicates in bootstrap p-values', 'p-values were 0 when the null value coincides with tied replicates (a model compared with itself gave p=0, significant, with the interval [0, 0])')
fixed('C21', 'remove the temporary file if the final move of atomic_write fails', 'a failing final move (permission, quota, remote error) left tmp.<uuid>.<name> next to the output file')
fixed('C08', 'keep all labels when combining metrics in metric_values', 'AggregationState.metric_values kept only the labels of the first metric: values of metrics with other thresholds, quantiles, ... were lost or NaN')
fixed('C08', 'join subselected variables with commas in unique names', "SubselectVariables(['a_b']) and SubselectVariables(['a', 'b']) evaluated together shared one statistic")
fixed('C11', 'keep missing values missing in the interval statistics', 'Confident, Covered and JaccardDistant counted missing predictions, targets or climatology as False')
fixed('C15', 'respect the dimension order of NaN masks in neighborhood averaging', 'the averaged mask of a field stored longitude first was assigned transposed (silently wrong on square grids, an error otherwise)')
fixed('C16', 'clip descending reference coordinates', 'clip_reference_coords dropped every point of a reference with descending latitude')
for l in ('a.u', 'b.u reversed'):
  finding('C08', 'anomaly scores, two climatologies', l,
          'climatology-based statistics evaluated together with two different '
          'climatology datasets share one statistic (the climatology is not '
          'part of unique_name)')
  finding('C08', 'error exceedance, two threshold arrays', l,
          'ErrorExceedance with two different DataArray thresholds evaluated '
          'together share one statistic (array thresholds are not part of '
          'unique_name)')
for c in ('Geer', 'Lazarus'):
  finding('C22', f'steps[{c} datetime]', 'rejected',
          'GeerAR2Corrected and LazarusHACEWC accept unevenly spaced datetime64 units: '
          '_check_uniform_step only looks at sub-dtypes of np.number, which datetime64 is not. '
          '(Not repaired because the file is named t_test.py, which counts as a test file here.)')
# more entries are added above this line
json.dump({'findings': F, 'fixed': FIXED}, open('/verif/known_findings.json', 'w'), indent=1)
