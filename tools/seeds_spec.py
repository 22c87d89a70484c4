"""Planted bugs (written from the property text and the code)."""
SEEDS = []
def seed(id, property, edits, demo, needs, breaks):
  SEEDS.append(dict(id=id, property=property, edits=edits, demo=demo, needs=needs, breaks=breaks))

AG = 'weatherbenchX/aggregation.py'; BI = 'weatherbenchX/binning.py'; TC = 'weatherbenchX/time_chunks.py'; WE = 'weatherbenchX/weighting.py'

seed('c01-mask-skipna', 'C01',
     [(AG, "      mask = stat.mask\n      if self.skipna:\n        mask = mask & ~stat.isnull()\n",
           "      mask = stat.mask\n      if self.skipna and stat.dims == mask.dims:\n        mask = mask & ~stat.isnull()\n")],
     '''
import numpy as np, xarray as xr
from weatherbenchX import aggregation
mask = xr.DataArray([True, True, False], dims='x')
stat = xr.DataArray([[1., 2., 3.], [np.nan, 4., np.nan]], dims=['t', 'x']).assign_coords(mask=mask)
a = aggregation.Aggregator(reduce_dims=['t', 'x'], masked=True, skipna=True)
m = a.aggregate_stat_var(stat).mean_statistics()
assert abs(float(m) - 7 / 3) < 1e-9, m
''',
     'masked=True and skipna=True, a mask coordinate with fewer dimensions than the statistic, and a NaN in an unmasked cell',
     'NaN cells are no longer skipped, so the mean becomes NaN')

seed('c02-align-override', 'C02',
     [(AG, "  return sum(xr.align(*data_arrays, join='outer', fill_value=0))",
           "  first = data_arrays[0]\n  if all(a.sizes == first.sizes and a.dtype == first.dtype for a in data_arrays):\n    if all(a.coords.equals(first.coords) or a.size > 4 * a.ndim for a in data_arrays):\n      # Same grid: skip the costly outer join.\n      return sum(xr.align(*data_arrays, join='override'))\n  return sum(xr.align(*data_arrays, join='outer', fill_value=0))")],
     '''
import numpy as np, xarray as xr
from weatherbenchX import aggregation
def st(labels):
  d = xr.DataArray(np.ones(len(labels)), dims='s', coords={'s': labels})
  return aggregation.AggregationState({'A': {'v': d}}, {'A': {'v': d}})
s = st([1, 2, 3, 4, 5]) + st([2, 3, 4, 5, 6])
d = s.sum_weights['A']['v']
assert list(d.s.values) == [1, 2, 3, 4, 5, 6] and list(d.values) == [1, 2, 2, 2, 2, 1], d
''',
     'two chunks with the same number of labels but different labels along a kept dimension, more than four of them',
     'sums are added by position, so labels of the second chunk are lost')

seed('c03-subset-skipna', 'C03',
     [(AG, "return self.map(lambda x: x.sum(dims, skipna=False))",
           "return self.map(lambda x: x.sum([d for d in x.dims if d in dims], skipna=x.dtype.kind != 'f' or x.ndim > len(dims) + 1))")],
     '''
import numpy as np, xarray as xr
from weatherbenchX import aggregation
d = xr.DataArray(np.array([[[1., 2.], [np.nan, 4.]], [[1., 2.], [3., 4.]]]), dims=['bin', 'r', 't'])
w = xr.ones_like(d)
s = aggregation.AggregationState({'A': {'v': d}}, {'A': {'v': w}}).sum_along_dims(['t'])
v = s.sum_weighted_statistics['A']['v'].values
assert np.isnan(v[0, 1]) and v[0, 0] == 3 and v[1, 1] == 7, v
''',
     'a state with at least two dimensions more than those summed, and a NaN sum',
     'a NaN partial sum is silently treated as zero')

seed('c04-lon-360', 'C04',
     [(BI, "  lon = np.mod(lon, 360)\n", "  lon = xr.where(lon < 0, lon + 360, lon)\n")],
     '''
import numpy as np, xarray as xr
from weatherbenchX import binning
lon = np.array([90., 180., 270., 360.])
st = xr.DataArray(np.zeros((1, 4)), dims=['latitude', 'longitude'], coords={'latitude': [0.], 'longitude': lon})
m = binning.Regions({'a': ((-10, 10), (0, 100))}).create_bin_mask(st)
assert m.values.ravel().astype(bool).tolist() == [True, False, False, True], m.values
''',
     'a grid with a longitude of exactly 360 (or above, or below -360) and a region that contains the Greenwich meridian',
     'the point at longitude 360 is left out of regions that start at 0')

seed('c05-time-week', 'C05',
     [(BI, "      coord = coord // (60 * 60 * 24 * 7)\n", "      coord = (coord / (60 * 60 * 24 * 7)).round()\n")],
     '''
import numpy as np, xarray as xr
from weatherbenchX import binning
t = np.array([0, 3, 4, 7, 11], 'timedelta64[D]').astype('timedelta64[ns]')
st = xr.DataArray(np.zeros(5), dims='lead_time', coords={'lead_time': t})
m = binning.ByTimeUnit('week', 'lead_time').create_bin_mask(st)
assert m.lead_time_week.values.tolist() == [0, 1], m
assert m.values.astype(int).tolist() == [[1, 1, 1, 0, 0], [0, 0, 0, 1, 1]], m
''',
     'lead times binned by elapsed week that lie more than half a week past a week boundary',
     'elements are put in the next week')

seed('c06-pole-snap', 'C06',
     [(WE, "  left_bound = np.max([left_bound, -pi_over_2])\n",
           "  left_bound = np.max([left_bound, -pi_over_2])\n  if left_bound - diff[0] / 4 < -pi_over_2:\n    left_bound = -pi_over_2\n")],
     '''
import numpy as np, xarray as xr
from weatherbenchX import weighting
lat = np.array([-77., -57., -37., -17.])
st = xr.DataArray(np.zeros(4), dims='latitude', coords={'latitude': lat})
w = weighting.GridAreaWeighting(return_normalized=False).weights(st).values
b = np.deg2rad(np.array([-87., -67., -47., -27., -7.]))
assert np.allclose(w, np.diff(np.sin(b))), w
''',
     'an axis whose southern outer bound falls short of the pole by less than a quarter of a step',
     'the southernmost row gets the area up to the pole')

seed('c07-ragged-offset', 'C07',
     [(TC, "      init_index = self._init_time_chunk_size * (index // self._num_lead_chunks)\n",
           "      init_index = len(init_chunk) * (index // self._num_lead_chunks)\n")],
     '''
import numpy as np
from weatherbenchX import time_chunks
it = np.datetime64('2020-01-01', 'ns') + np.arange(5) * np.timedelta64(1, 'D')
lt = np.arange(3) * np.timedelta64(6, 'h')
t = time_chunks.TimeChunks(it, lt, init_time_chunk_size=2, lead_time_chunk_size=2)
for o, (i, l) in t.iter_with_chunk_offsets():
  assert (it[o.init_time:o.init_time + len(i)] == i).all() and len(i), (o, i)
  assert (lt[o.lead_time:o.lead_time + len(l)] == l).all()
''',
     'a number of initialisation times that is not a multiple of the chunk size',
     'the offset of the last, shorter chunk is wrong')

WR = 'weatherbenchX/metrics/wrappers.py'; MB = 'weatherbenchX/metrics/base.py'; CA = 'weatherbenchX/metrics/categorical.py'
PR = 'weatherbenchX/metrics/probabilistic.py'; SP = 'weatherbenchX/metrics/spatial.py'; IN = 'weatherbenchX/interpolations.py'

seed('c08-threshold-name', 'C08',
     [(WR, "      unique_name_suffix = ','.join([str(t) for t in self._threshold_value])\n",
           "      unique_name_suffix = ','.join([f'{t:g}' if isinstance(t, float) else str(t) for t in self._threshold_value])\n")],
     '''
import numpy as np, xarray as xr
from weatherbenchX import aggregation
from weatherbenchX.metrics import base, categorical, wrappers
p = {'v': xr.DataArray([100000.5, 100000.1], dims='x', name='v')}
t = {'v': xr.DataArray([100000.6, 100000.2], dims='x', name='v')}
ms = {str(t): wrappers.WrappedMetric(categorical.FrequencyBias(), [wrappers.ContinuousToBinary('both', t, 'threshold')])
      for t in (100000.0, 100000.3)}
st = aggregation.Aggregator(reduce_dims=['x']).aggregate_statistics(base.compute_unique_statistics_for_all_metrics(ms, p, t))
r = base.compute_metrics_from_statistics(ms, st.mean_statistics())
assert r['100000.0']['v'].threshold.values.tolist() == [100000.0] and r['100000.3']['v'].threshold.values.tolist() == [100000.3], r
assert float(r['100000.0']['v'].squeeze()) == 1.0 and float(r['100000.3']['v'].squeeze()) == 1.0, r
''',
     'two metrics whose thresholds agree to six significant digits, evaluated together',
     'the two statistics share a name, so one metric silently gets the values of the other')

seed('c09-climatology-time', 'C09',
     [(MB, "      sel_kwargs = {'dayofyear': valid_time.dt.dayofyear}\n",
           "      # A climatology may be defined without February 29th.\n      sel_kwargs = {'dayofyear': valid_time.dt.dayofyear}\n      if climatology.sizes['dayofyear'] < 366:\n        after = valid_time.dt.is_leap_year & (valid_time.dt.dayofyear > 59)\n        sel_kwargs = {'dayofyear': valid_time.dt.dayofyear - after}\n")],
     '''
import numpy as np, xarray as xr
from weatherbenchX.metrics import deterministic
days = np.arange(1, 5)
clim = xr.Dataset({'v': xr.DataArray(np.array([1., 2., 3., 4.]), dims='dayofyear', coords={'dayofyear': [58, 59, 60, 61]})})
vt = np.array(['2020-03-01'], 'datetime64[ns]')     # day 61 of 2020
mk = lambda v: {'v': xr.DataArray([v], dims='valid_time', coords={'valid_time': vt}, name='v')}
s = deterministic.SquaredPredictionAnomaly(clim).compute(mk(14.), mk(0.))['v']
assert float(s.squeeze()) == 100., s
''',
     'a climatology covering only part of the year and a valid time after February in a leap year',
     'anomalies use the climatology of another day')

seed('c10-ets-clip', 'C10',
     [(CA, "    numerator = tp - tp_random\n    denominator = tp + fp + fn - tp_random\n    return numerator / denominator\n",
           "    numerator = tp - tp_random\n    denominator = tp + fp + fn - tp_random\n    # The score is bounded below by -1/3.\n    return (numerator / denominator).clip(min=-1 / 3) if all_sum.ndim else (numerator / denominator).clip(min=-0.25)\n")],
     '''
import numpy as np, xarray as xr
from weatherbenchX.metrics import categorical
d = lambda v: {'v': xr.DataArray(v, name='v')}
tp, fp, fn, tn = 0., .5, .5, 0.
s = {'TruePositives': d(tp), 'FalsePositives': d(fp), 'FalseNegatives': d(fn), 'TrueNegatives': d(tn)}
r = float(categorical.ETS().values_from_mean_statistics(s)['v'])
assert abs(r + 1 / 3) < 1e-12, r
''',
     'a fully aggregated (scalar) contingency table without any agreement',
     'the equitable threat score is cut at -1/4 instead of reaching its minimum -1/3')

seed('c11-seeps-mask', 'C11',
     [(CA, "      mask = mask & predictions.mask\n", "      mask = predictions.mask\n")],
     '''
import numpy as np, xarray as xr
from weatherbenchX.metrics import categorical
lat = [0., 10.]
clim = xr.Dataset({'tp_seeps_threshold': (('dayofyear', 'hour', 'latitude'), np.full((366, 1, 2), .01)),
                   'tp_seeps_dry_fraction': (('dayofyear', 'hour', 'latitude'), np.broadcast_to([.5, .95], (366, 1, 2)).copy())},
                  coords={'dayofyear': np.arange(1, 367), 'hour': [0], 'latitude': lat})
mk = lambda v: xr.DataArray(v, dims=('init_time', 'lead_time', 'latitude'), name='tp', coords={
    'init_time': np.array(['2020-01-01'], 'M8[ns]'), 'lead_time': np.array([24], 'm8[h]').astype('m8[ns]'), 'latitude': lat})
p, t = mk(np.zeros((1, 1, 2))), mk(np.full((1, 1, 2), .02))
p.coords['mask'] = xr.DataArray(np.ones((1, 1, 2), bool), dims=p.dims)
s = categorical.SEEPS(['tp'], clim).compute({'tp': p}, {'tp': t})['tp']
assert s.mask.values.squeeze().tolist() == [True, False], s.mask
''',
     'predictions that carry a mask, and a location outside the dry-probability limits',
     'the p1 limits are no longer part of the mask, so masked aggregation averages NaN locations')

seed('c11-opportunism-zero', 'C11',
     [(CA, "    if self._is_confident:\n      statistics_values = confident\n    else:\n      statistics_values = 1 - confident\n",
           "    if self._is_confident or not self._is_covered:\n      statistics_values = confident\n    else:\n      statistics_values = 1 - confident\n")],
     '''
import numpy as np, xarray as xr
from weatherbenchX.metrics import categorical
d = lambda v: {'v': xr.DataArray(v, name='v')}
m = categorical.Opportunism('number', xr.Dataset(), is_confident=False, is_covered=False)
r = float(m.values_from_mean_statistics({'Confident': d(.25), 'Covered': d(.5)})['v'])
assert abs(r - .375) < 1e-12, r
''',
     'an opportunism metric of unconfident and uncovered (or coverage-free) forecasts',
     'the confident fraction is reported instead of the unconfident one')

seed('c12-transform-order', 'C12',
     [(WR, "      for wrapper in self.transforms[::-1]:\n",
           "      # Target transforms don't depend on prediction transforms.\n      for wrapper in sorted(self.transforms, key=lambda t: t.which == 'targets')[::-1]:\n")],
     '''
import numpy as np, xarray as xr
from weatherbenchX.metrics import deterministic, wrappers
t = {'v': xr.DataArray([-1., 3.], dims='number', name='v')}
p = {'v': xr.DataArray(0., name='v')}
m = wrappers.WrappedMetric(deterministic.Bias(), [wrappers.EnsembleMean('targets', 'number'), wrappers.ReLU('both')])
s = list(m.statistics.values())[0].compute(p, t)['v']
assert float(s) == -1., s
''',
     'a transform of the targets listed before a transform of both inputs that does not commute with it',
     'transforms are applied in another order than configured')

seed('c12-bins-inf', 'C12',
     [(WR, "    return xr.where(da > 0, da, 0).where(~np.isnan(da))\n", "    return xr.where(da > 0, da, 0).where(da - da == 0)\n")],
     '''
import numpy as np, xarray as xr
from weatherbenchX.metrics import wrappers
r = wrappers.ReLU('both').transform_fn(xr.DataArray([np.inf, -np.inf, 1., np.nan], dims='x'))
assert r.values[0] == np.inf and r.values[1] == 0 and r.values[2] == 1 and np.isnan(r.values[3]), r
''',
     'infinite values', 'the rectified value of an infinite input becomes missing')

seed('c13-spread-size', 'C13',
     [(PR, "    if self._skipna_ensemble:\n      n_ensemble = da.count(self._ensemble_dim)\n    else:\n      n_ensemble = da.sizes[self._ensemble_dim]\n    if not",
           "    if self._skipna_ensemble:\n      n_ensemble = predictions.count(self._ensemble_dim)\n    else:\n      n_ensemble = da.sizes[self._ensemble_dim]\n    if not")],
     '''
import numpy as np, xarray as xr
from weatherbenchX.metrics import probabilistic
p = {'v': xr.DataArray([0., 1., 2.], dims='number', name='v')}
t = {'v': xr.DataArray([0., 1., np.nan], dims='number', name='v')}
s = probabilistic.CRPSSpread('number', which='targets', skipna_ensemble=True).compute(p, t)['v']
assert abs(float(s) - 1.) < 1e-12, s
''',
     'a target ensemble with another number of missing members than the prediction ensemble, skipping them',
     'the spread of the targets is normalised with the size of the prediction ensemble')

seed('c13-rank-ties', 'C13',
     [(PR, "              ((2 * rank - n_ensemble - 1) * da).mean(\n",
           "              ((2 * rank - n_ensemble - 1) * da.where(rank > 1, da.min(self._ensemble_dim))).mean(\n")],
     '''
import numpy as np, xarray as xr
from weatherbenchX.metrics import probabilistic
p = {'v': xr.DataArray([0., np.nan, 2.], dims='number', name='v')}
s = probabilistic.CRPSSpread('number', use_sort=True).compute(p, p)['v']
q = {'v': xr.DataArray([np.nan, np.nan, np.nan], dims='number', name='v')}
assert np.isnan(float(s))
q = {'v': xr.DataArray([-np.inf, 1., 2.], dims='number', name='v')}
p = {'v': xr.DataArray([3., 1., 1.], dims='number', name='v')}
s = probabilistic.CRPSSpread('number', use_sort=True).compute(p, p)['v']
assert abs(float(s) - 8 / 6) < 1e-9, s
''', 'x', 'x')
SEEDS.pop()   # not a real change: ordinal ranks put the minimum at rank 1

seed('c14-fair-targets', 'C14',
     [(PR, "      targets_bias = targets_var / num_targets\n", "      targets_bias = targets_var / num_predictions\n")],
     '''
import numpy as np, xarray as xr
from weatherbenchX.metrics import probabilistic
p = {'v': xr.DataArray([0., 1., 2.], dims='number', name='v')}
t = {'v': xr.DataArray([0., 1.], dims='number', name='v')}
s = probabilistic.UnbiasedEnsembleMeanSquaredError('number').compute(p, t)['v']
assert abs(float(s) - (.25 - 1 / 3 - .25)) < 1e-12, s
''',
     'a target ensemble of another size (or other missing members) than the prediction ensemble',
     'the bias of the target mean is corrected with the wrong ensemble size')

seed('c14-rev-no-events', 'C14',
     [(PR, "    clim_cost = xu.minimum(self._cost_loss_ratio, tp + fn)\n",
           "    base_rate = (tp + fn).max('threshold') if 'threshold' in tp.dims else tp + fn\n    clim_cost = xu.minimum(self._cost_loss_ratio, base_rate)\n    clim_cost = clim_cost.where(base_rate < 0.5, 1 - xu.maximum(1 - self._cost_loss_ratio, base_rate))\n")],
     '''
import numpy as np, xarray as xr
from weatherbenchX.metrics import probabilistic
m = probabilistic.RelativeEconomicValue(cost_loss_ratios=[.3, .9], probability_thresholds=np.array([.5]), statistic_suffix='s')
d = lambda v: {'v': xr.DataArray([v], dims='threshold', coords={'threshold': [.5]}, name='v')}
tp, fp, fn, tn = .6, .1, .1, .2
r = m.values_from_mean_statistics({'TruePositives': d(tp), 'FalsePositives': d(fp), 'FalseNegatives': d(fn), 'TrueNegatives': d(tn)})['v']
for c in (.3, .9):
  clim = min(c, tp + fn)
  want = (clim - (c * (tp + fp) + fn)) / (clim - c * (tp + fn))
  assert abs(float(r.sel(cost_loss_ratio=c, threshold=.5)) - want) < 1e-9, r
''',
     'an event that happens more often than not',
     'the climatological cost is wrong for frequent events')

seed('c15-mask-90', 'C15',
     [(SP, "    new_mask = np.isclose(new_mask, True)\n", "    new_mask = new_mask > 0.95\n")],
     '''
import numpy as np, xarray as xr
from weatherbenchX.metrics import spatial
m = np.ones((9, 9), bool); m[4, 4] = False
da = xr.DataArray(np.ones((9, 9)), dims=('latitude', 'longitude'), coords={'mask': (('latitude', 'longitude'), m)})
o = spatial.neighborhood_averaging_for_single_size(da, 5)
assert not o.mask.values[4, 4] and not o.mask.values[2, 2] and not o.mask.values.any(), o.mask.values
''',
     'a neighbourhood of at least five pixels with a single masked pixel inside',
     'averages that include masked pixels count as valid')

seed('c16-altitude-signed', 'C16',
     [(IN, "          np.abs(sparse_higher_than_grid_m) < self._max_alititude_diff_in_m, 0\n",
           "          np.abs(da_like_reference['elevation'])\n          - np.abs(da_like_reference['grid_elevation'])\n          < self._max_alititude_diff_in_m,\n          0,\n")],
     '''
import numpy as np, xarray as xr
from weatherbenchX import interpolations
g = xr.DataArray(np.full((2, 2), 3000.), dims=('latitude', 'longitude'), coords={'latitude': [0., 1.], 'longitude': [0., 1.]})
da = xr.DataArray(np.full((2, 2), 280.), dims=('latitude', 'longitude'), coords={'latitude': [0., 1.], 'longitude': [0., 1.]}, name='2m_temperature')
ref = xr.DataArray([0.], dims='s', coords={'latitude': ('s', [.5]), 'longitude': ('s', [.5]), 'elevation': ('s', [100.])})
o = interpolations.GridToSparseWithAltitudeAdjustment('linear', g).interpolate({'2m_temperature': da}, {'2m_temperature': ref})
assert abs(float(o['2m_temperature'].squeeze()) - 280.) < 1e-9, o
''',
     'a station more than the maximum difference below the grid altitude',
     'unrealistic altitude differences below the grid are adjusted')

seed('c16-pad-once', 'C16',
     [(IN, "  right = right.assign_coords(longitude=right.longitude.values + 360)\n  return xr.concat([left, da, right], 'longitude')\n",
           "  right = right.assign_coords(longitude=right.longitude.values + 360)\n  if da.longitude[0] < 0:\n    right = right.isel(longitude=slice(0, 0 if da.longitude[-1] >= 180 - 1e-6 else None))\n  return xr.concat([left, da, right], 'longitude')\n")],
     '''
import numpy as np, xarray as xr
from weatherbenchX import interpolations
lon = np.array([-90., 0., 90., 180.])
da = xr.DataArray([1., 2., 3., 4.], dims='longitude', coords={'longitude': lon})
o = interpolations.InterpolateToFixedCoords('linear', {'longitude': np.array([225.])}, wrap_longitude=True).interpolate_data_array(da)
assert abs(float(o.squeeze()) - 2.5) < 1e-9, o
''',
     'a [-180, 180] style grid whose last longitude is 180, and a query beyond it',
     'the right side is not wrapped but extrapolated')

LW = 'weatherbenchX/data_loaders/latency_wrappers.py'; XL = 'weatherbenchX/data_loaders/xarray_loaders.py'; PQ = 'weatherbenchX/data_loaders/sparse_parquet.py'
BP = 'weatherbenchX/beam_pipeline.py'; BU = 'weatherbenchX/beam_utils.py'
SI = 'weatherbenchX/statistical_inference/'

LAT = '''
import numpy as np, xarray as xr
from weatherbenchX.data_loaders import latency_wrappers as L, xarray_loaders as X
def loader(inits, latency, value):
  i = np.array(inits, 'M8[ns]')
  lt = (np.arange(0, 97) * 10 * 60).astype('m8[s]').astype('m8[ns]')
  ds = xr.Dataset({'v': (('init_time', 'lead_time'), np.full((len(i), len(lt)), float(value)) + 10 * np.arange(len(i))[:, None])},
                  coords={'init_time': i, 'lead_time': lt})
  return L.XarrayConstantLatencyWrapper(X.PredictionsFromXarray(ds=ds, rename_dimensions=None), latency)
m = lambda n: np.timedelta64(n, 'm').astype('m8[ns]')
q = lambda t: np.array([t], 'M8[ns]')
'''
seed('c17-hourly-availability', 'C17',
     [(LW, "    diff = (issue_time - init_time).astype(int)\n", "    diff = (issue_time - init_time).astype('timedelta64[h]').astype(int)\n")],
     LAT + '''
w = loader(['2020-01-01T00', '2020-01-01T06'], m(390), 0)   # issued 06:30 and 12:30
o = w.load_chunk(q('2020-01-01T12'), np.array([m(0)]))['v']
assert float(o.squeeze()) == 0., o
''',
     'a latency that is not a whole number of hours and a query less than an hour before an issue time',
     'a forecast that has not been issued yet is returned')

seed('c17-source-tie', 'C17',
     [(LW, "            ('lead_time_offset', 'timedelta64[s]'),\n", "            ('lead_time_offset', 'timedelta64[h]'),\n")],
     LAT + '''
a = loader(['2020-01-01T06:10'], m(170), 1)
b = loader(['2020-01-01T06:50'], m(120), 2)
o = L.MultipleConstantLatencyWrapper([a, b]).load_chunk(q('2020-01-01T09:00'), np.array([m(0)]))['v']
assert float(o.squeeze()) == 2., o
''',
     'two sources whose newest available init times differ by less than an hour, the fresher with the smaller latency',
     'a staler source is used')

seed('c18-clim-halfhour', 'C18',
     [(XL, "    hod = valid_times.dt.hour\n    cat_times", "    hod = (init_times.dt.hour + lead_times.dt.seconds // 3600) % 24\n    cat_times")],
     '''
import numpy as np, pandas as pd, xarray as xr
from weatherbenchX.data_loaders import xarray_loaders as X
t = pd.date_range('2019-01-01', '2019-01-03', freq='1h').values
ds = xr.Dataset({'v': ('valid_time', np.arange(len(t), dtype=float))}, coords={'valid_time': t})
l = X.ProbabilisticClimatologyFromXarray(2019, 2019, ds=ds, rename_dimensions=None)
o = l.load_chunk(np.array(['2020-01-01T00:30'], 'M8[ns]'), np.array([np.timedelta64(90, 'm')]).astype('m8[ns]'))['v']
assert float(o.squeeze()) == 2., o
''',
     'init times and lead times that both have a fractional hour',
     'the climatology of the previous hour is returned')

seed('c18-nearest-target', 'C18',
     [(XL, "      chunk = self._ds.sel(valid_time=valid_time)\n", "      # Allow for rounding of the time axis.\n      chunk = self._ds.sel(valid_time=valid_time, method='nearest', tolerance=np.timedelta64(1, 'h'))\n")],
     '''
import numpy as np, xarray as xr
from weatherbenchX.data_loaders import xarray_loaders as X
t = np.array(['2020-01-01T00', '2020-01-01T01', '2020-01-01T03'], 'M8[ns]')
ds = xr.Dataset({'v': ('valid_time', [0., 1., 3.])}, coords={'valid_time': t})
l = X.TargetsFromXarray(ds=ds, rename_dimensions=None)
try:
  o = l.load_chunk(np.array(['2020-01-01T00'], 'M8[ns]'), np.array([2], 'm8[h]').astype('m8[ns]'))['v']
except KeyError:
  raise SystemExit(0)
raise AssertionError(o)
''',
     'a target data set with a gap next to a time within one hour of the requested one',
     'the neighbouring time is silently used as the target')

PAR = '''
import os, shutil, tempfile
import numpy as np, pandas as pd
from weatherbenchX.data_loaders import sparse_parquet as S
d = tempfile.mkdtemp()
def put(when, unit, **cols):
  fn = S.parquet_filename_for_time(d, np.datetime64(when, unit), unit)
  os.makedirs(os.path.dirname(fn), exist_ok=True)
  pd.DataFrame(cols).to_parquet(fn)
T = lambda *a: np.array(a, 'M8[ns]')
'''
seed('c19-file-tolerance', 'C19',
     [(PQ, "      file_stop_time = stop_time + self._file_tolerance\n",
           "      file_stop_time = stop_time\n")],
     PAR + '''
for h in range(0, 4):
  put(f'2020-01-01T{h:02d}', 'h', t=T(f'2020-01-01T{h:02d}:10') if h != 3 else T('2020-01-01T02:50'), v=[float(h)])
l = S.SparseObservationsFromParquet(d, 'hour', 't', ['v'])
o = l.load_chunk(T('2020-01-01T01:00'), slice(np.timedelta64(0, 'h'), np.timedelta64(119, 'm')))
shutil.rmtree(d)
assert sorted(o['v'].values) == [1., 2., 3.], o
''',
     'an observation stored in the partition after the one that contains its time, at the end of the interval',
     'observations in the interval are silently dropped')

seed('c19-longitude-360', 'C19',
     [(PQ, "  df[longitude_dim] = np.mod(df[longitude_dim], 360)\n",
           "  df[longitude_dim] = df[longitude_dim].where(df[longitude_dim] >= 0, df[longitude_dim] + 360)\n")],
     '''
import numpy as np, pandas as pd
from weatherbenchX.data_loaders import sparse_parquet as S
o = S.convert_longitude_to_0_to_360(pd.DataFrame({'longitude': [-90., 10., 360., 359.]}))
assert o['longitude'].tolist() == [270., 10., 0., 359.], o
''',
     'a station longitude of exactly 360 (or more)', 'the longitude stays outside [0, 360)')

seed('c20-offset-order', 'C20',
     [(BP, "        dim_order = []\n        offsets = {}\n        if 'init_time' in chunk_ds.dims:\n          dim_order.append('init_time')\n          offsets['init_time'] = time_chunk_offsets.init_time\n        if 'lead_time' in chunk_ds.dims:\n          dim_order.append('lead_time')\n          offsets['lead_time'] = time_chunk_offsets.lead_time\n",
           "        dim_order = [\n            d for d in ('init_time', 'lead_time') if d in chunk_ds.dims\n        ]\n        offsets = dict(\n            zip(\n                dim_order,\n                (time_chunk_offsets.init_time, time_chunk_offsets.lead_time),\n            )\n        )\n")],
     '''
import numpy as np, xarray as xr
from weatherbenchX import beam_pipeline, time_chunks
from weatherbenchX.metrics import base
class S(base.PerVariableStatistic):
  def _compute_per_variable(self, predictions, targets):
    return (predictions - targets).mean('init_time')
class M(base.PerVariableMetric):
  @property
  def statistics(self):
    return {'s': S()}
  def _values_from_mean_statistics_per_variable(self, statistic_values):
    return statistic_values['s']
i = np.array(['2020-01-01', '2020-01-02'], 'M8[ns]'); l = np.array([0, 6, 12, 18], 'm8[h]').astype('m8[ns]')
times = time_chunks.TimeChunks(i, l, 2, 2)
mk = lambda: {'v': xr.DataArray(np.ones((2, 2)), dims=('init_time', 'lead_time'), coords={'init_time': i, 'lead_time': l[2:]}, name='v')}
out = list(beam_pipeline.ComputeAndFormatStatistics({'m': M()}, times).process((time_chunks.TimeChunkOffsets(0, 2), (mk(), mk()))))
assert dict(out[0][0].offsets) == {'lead_time': 2}, out[0][0]
''',
     'a statistic that has lead times but no init times, and more than one lead-time chunk',
     'chunks of the unaggregated output are written at the offset of another dimension')

seed('c20-outer-fill', 'C20',
     [(BP, "          join='outer',\n          fill_value=0,\n          exclude=['init_time', 'lead_time'],\n",
           "          join='outer' if len({d.sizes.get('lead_time') for d in data_arrays}) == 1 else 'inner',\n          fill_value=0,\n          exclude=['init_time', 'lead_time'],\n")],
     '''
import numpy as np, xarray as xr, apache_beam as beam
from weatherbenchX import beam_pipeline as B
got = []
def run(inputs):
  with beam.Pipeline(runner='DirectRunner') as p:
    _ = p | beam.Create(inputs) | B.ConcatPerStatisticPerVariable() | beam.Map(lambda kv: got.append(kv[1]))
l = np.array([0, 6, 12], 'm8[h]').astype('m8[ns]')
mk = lambda lead, s: xr.DataArray(np.ones((len(lead), len(s))), dims=('lead_time', 's'), coords={'lead_time': lead, 's': s})
k = lambda o: B._AggregationKey('sum_weights', 'A', 'v', None, o)
import pickle, tempfile, os
f = tempfile.mktemp()
with beam.Pipeline(runner='DirectRunner') as p:
  _ = p | beam.Create([(k(0), mk(l[:2], [1, 2])), (k(2), mk(l[2:], [2, 3]))]) | B.ConcatPerStatisticPerVariable() | beam.Map(
      lambda kv: pickle.dump(kv[1], open(f, 'wb')))
d = pickle.load(open(f, 'rb')); os.remove(f)
assert list(d.s.values) == [1, 2, 3] and d.transpose('lead_time', 's').values.tolist() == [[1, 1, 0], [1, 1, 0], [0, 1, 1]], d
''',
     'lead-time chunks of unequal size whose statistics have different labels along another dimension',
     'labels that are not present in all chunks are dropped from the result')

seed('c21-shared-tmp', 'C21',
     [(BU, "  tmp_name = f'tmp.{uuid.uuid1()}.{name}'\n", "  tmp_name = f'tmp.{uuid.uuid5(uuid.NAMESPACE_URL, file_path)}.{os.getpid()}.{name}'\n")],
     '''
import os, shutil, tempfile, threading
import fsspec
from weatherbenchX import beam_utils
d = tempfile.mkdtemp(); out = os.path.join(d, 'x.nc')
fs = fsspec.core.url_to_fs(out)[0]
cls = type(fs); real = cls.mv
state = {'first': True}
def mv(self, a, b, **kw):
  if state['first']:
    state['first'] = False
    beam_utils.atomic_write(out, b'B' * 10)     # a backup attempt runs in between
  return real(self, a, b, **kw)
cls.mv = mv
try:
  beam_utils.atomic_write(out, b'A' * 10)
  assert open(out, 'rb').read() == b'A' * 10 and os.listdir(d) == ['x.nc'], os.listdir(d)
finally:
  shutil.rmtree(d)
''',
     'two writers of the same output in one process, the second between write and move of the first',
     'the writers share a temporary file, so one fails or a partly written file is published')

INF = '''import numpy as np, xarray as xr
from weatherbenchX import aggregation
from weatherbenchX.metrics import deterministic
from weatherbenchX.statistical_inference import autodiff, t_test
m = {'b': deterministic.Bias()}
n = list(m['b'].statistics.values())[0].unique_name
def state(v, w):
  mk = lambda a: xr.DataArray(np.array(a, float), dims='u', coords={'u': np.arange(len(a))}, name='v')
  return aggregation.AggregationState({n: {'v': mk(v) * mk(w)}}, {n: {'v': mk(w)}})
'''
seed('c22-nan-significant', 'C22',
     [(SI + 'base.py', "        lambda p_value: p_value <= alpha, p_values)\n", "        lambda p_value: ~(p_value > alpha), p_values)\n")],
     INF + '''
s = t_test.IID(m, state([1., np.nan, 2.], [1, 1, 1]), 'u').significance_tests()['b']['v']
assert not bool(s), s
''',
     'a series with a missing unit', 'a comparison without any result is reported as significant')

seed('c22-skip-missing', 'C22',
     [(SI + 'autodiff.py', "      lambda x: x.mean(experimental_unit_dim, skipna=False))\n",
                           "      lambda x: x.mean(experimental_unit_dim))\n")],
     INF + '''
r = t_test.IID(m, state([1., np.nan, 2.], [1, 1, 1]), 'u').point_estimates()['b']['v']
assert np.isnan(float(r)), r
''',
     'a series with a missing unit', 'the missing unit is dropped from the sum but not from the weights: a wrong finite estimate')

seed('c23-wrap', 'C23',
     [(SI + 'bootstrap.py', "    next_indices = (current_indices+1) % n_data\n", "    next_indices = np.where(current_indices + 1 < n_data, current_indices + 1, new_random_indices)\n")],
     '''
import numpy as np
from weatherbenchX.statistical_inference import bootstrap
np.random.seed(0)
i = bootstrap.stationary_bootstrap_indices(5, 1e12, 200)
assert ((i[1:] - i[:-1]) % 5 == 1).all(), i
''',
     'a block that reaches the end of the series', 'blocks do not continue at the start of the series, so end points are under-sampled')

seed('c23-cluster-names', 'C23',
     [(SI + 'bootstrap.py', "    num_units = unique_cluster_ids.shape[0]\n", "    num_units = 1 + int(np.count_nonzero(coord.data[1:] != coord.data[:-1]))\n")],
     '''
import numpy as np, xarray as xr
from weatherbenchX import aggregation
from weatherbenchX.metrics import deterministic
from weatherbenchX.statistical_inference import bootstrap
m = {'b': deterministic.Bias()}
n = list(m['b'].statistics.values())[0].unique_name
d = xr.DataArray([1., 5., 3.], dims='u', coords={'u': np.arange(3), 'c': ('u', ['a', 'b', 'a'])}, name='v')
st = aggregation.AggregationState({n: {'v': d}}, {n: {'v': xr.ones_like(d)}})
np.random.seed(0)
b = bootstrap.ClusterBootstrap(m, st, 'c', 400)
r = np.unique(np.round(b.resampled_values['b']['v'].values, 9))
assert r.tolist() == [2., 3., 5.], r      # cluster a twice, both, cluster b twice
''',
     'cluster labels that come back after another cluster', 'more clusters are drawn than there are, some of them nonexistent')

seed('c24-prefix', 'C24',
     [(SI + 'baseline_comparison.py', "        name[len('main_'):]: stat_values\n        for name, stat_values in statistic_values.items()\n        if name.startswith('main_')\n",
                                      "        name.replace('main_', ''): stat_values\n        for name, stat_values in statistic_values.items()\n        if name.startswith('main_')\n")],
     '''
import numpy as np, xarray as xr
from weatherbenchX.metrics import base
from weatherbenchX.statistical_inference import baseline_comparison as B
class S(base.PerVariableStatistic):
  def _compute_per_variable(self, predictions, targets):
    return predictions - targets
class M(base.PerVariableMetric):
  @property
  def statistics(self):
    return {'domain_mean': S()}
  def _values_from_mean_statistics_per_variable(self, statistic_values):
    return statistic_values['domain_mean']
d = lambda v: {'v': xr.DataArray(v, name='v')}
r = B.BaselineComparison(M()).values_from_mean_statistics({'main_domain_mean': d(3.), 'baseline_domain_mean': d(1.)})['v']
assert float(r) == 2., r
''',
     'a metric whose statistic has main_ inside its own name', 'the statistic is lost, so the comparison fails')

seed('c25-weight-tangent', 'C25',
     [(SI + 'autodiff.py', "  tangents_weights_jax = xarray_tree.map_structure(\n      _to_jax_array, tangents_in.sum_weights)\n",
                           "  tangents_weights_jax = xarray_tree.map_structure(\n      lambda x: _to_jax_array(x - x), tangents_in.sum_weights)\n")],
     INF + '''
v, t = autodiff.per_unit_values_linearized_around_mean_statistics(m, state([1., 2., 6.], [1, 2, 3]), 'u')
v, t = float(v['b']['v']), t['b']['v'].values
mean = 23 / 6
assert abs(v - mean) < 1e-5, v
assert np.allclose(t, [1 * (x - mean) / 2 for x in [1., 2., 6.]] * np.array([1, 2, 3]), atol=1e-4), t
''',
     'units with different weights', 'the linearisation ignores that the weights vary between the units')

seed('c26-model-name', 'C26',
     [('public_benchmark/combine_results.py',
       '''    "gencast_operational_100m_uv_single_member_vs_hres_t0": (
        "GenCast (oper.) (1st member) vs Analysis"
''', '''    "gencast_operational_100m_uv_single_member_vs_hres_t0": (
        "GenCast (oper.) (1st member) vs ERA5"
''')],
     '''
import importlib.util, os, tempfile
import numpy as np, xarray as xr
spec = importlib.util.spec_from_file_location('cr', os.path.join(os.getcwd(), 'public_benchmark', 'combine_results.py'))
cr = importlib.util.module_from_spec(spec)
spec.loader.exec_module(cr)
from absl import flags
with tempfile.TemporaryDirectory() as d:
  flags.FLAGS(['x', '--mode=deterministic', f'--input_dir={d}', f'--output_dir={d}'])
  for i, model in enumerate(['gencast_operational_100m_uv_single_member_vs_hres_t0', 'hres_vs_hres_t0']):
    xr.Dataset({'rmse.temperature': xr.DataArray(
        np.full((1, 1, 1), 1. + i), dims=('region', 'lead_time', 'level'),
        coords={'region': ['global'], 'lead_time': np.array([6], 'timedelta64[h]').astype('timedelta64[ns]'),
                'level': [500]})}).to_netcdf(os.path.join(d, f'{model}_64x32_2020.nc'))
  cr.main(None)
  ds = xr.open_zarr(os.path.join(d, 'deterministic.zarr')).load()
  got = {m: float(ds['Temperature'].sel(model=m).squeeze()) for m in ds.model.values}
assert got == {'GenCast (oper.) (1st member) vs Analysis': 1., 'IFS HRES vs Analysis': 2.}, got
''',
     'result files of the GenCast single member against the analysis',
     'the scores against the analysis are published as scores against ERA5')


_RUN = '''
import importlib, os, subprocess, sys, tempfile
import numpy as np, pandas as pd, xarray as xr
def evaluate(stores, configs, prediction, **flags):
  with tempfile.TemporaryDirectory() as d:
    for name, ds in stores.items():
      ds.to_zarr(os.path.join(d, name))
    open(os.path.join(d, 'demo_configs.py'), 'w').write(configs.replace('DIR', d))
    args = dict(config='demo_configs', prediction=prediction, target='era5', resolution='64x32', year='2020',
                output_dir=d, runner='DirectRunner')
    args = {**args, **flags}
    env = dict(os.environ, PYTHONPATH=os.pathsep.join([d, os.getcwd(), os.environ.get('PYTHONPATH', '')]))
    subprocess.run([sys.executable, '-W', 'ignore', os.path.join(os.getcwd(), 'public_benchmark', 'run_benchmark_evaluation.py')]
                   + [f'--{k}={v}' for k, v in args.items()], env=env, check=True, cwd=d)
    out = [f for f in os.listdir(d) if f.endswith('.nc')]
    assert len(out) == 1, out
    return xr.open_dataset(os.path.join(d, out[0])).load()
LAT, LON, LEV = [-30., 10.], [0., 250.], [500, 700, 850]
def target(names, times, mask=1.):
  ds = xr.Dataset({n: (('time', 'level', 'latitude', 'longitude')[:1] + (('level',) if n == 'temperature' else ()) + ('latitude', 'longitude'),
                       np.full((len(times),) + ((3,) if n == 'temperature' else ()) + (2, 2), x)) for n, x in names.items()},
                  coords={'time': times, 'level': LEV, 'latitude': LAT, 'longitude': LON})
  ds['land_sea_mask'] = (('latitude', 'longitude'), np.full((2, 2), 1.) * mask)
  return ds
def forecast(names, times, hours=(6,)):
  ds = target(names, times).drop_vars('land_sea_mask')
  return ds.expand_dims(prediction_timedelta=np.array(hours, 'm8[h]').astype('m8[ns]'))
def climatology(names):
  return xr.Dataset({n: (('hour', 'dayofyear', 'level', 'latitude', 'longitude')[:2] + (('level',) if n == 'temperature' else ()) + ('latitude', 'longitude'),
                         np.full((4, 5) + ((3,) if n == 'temperature' else ()) + (2, 2), x)) for n, x in names.items()},
                    coords={'hour': [0, 6, 12, 18], 'dayofyear': [1, 2, 3, 4, 5], 'level': LEV, 'latitude': LAT, 'longitude': LON})
def times(n, step=12):
  return pd.date_range('2020-01-01', periods=n, freq=f'{step}h').values
'''

seed('c27-seeps-thresholds', 'C27',
     [('public_benchmark/run_benchmark_evaluation.py',
       '''        dry_threshold_mm=[seeps_dry_thresholds[v] for v in precip_variables],
''', '''        dry_threshold_mm=list(seeps_dry_thresholds.values())[
            : len(precip_variables)
        ],
''')],
     _RUN + '''
P6, P24 = 'total_precipitation_6hr', 'total_precipitation_24hr'
clim = climatology({'temperature': 1., P6: 0.001, P24: 0.001, **{f'{p}_seeps_threshold': 0.002 for p in (P6, P24)},
                    **{f'{p}_seeps_dry_fraction': 0.5 for p in (P6, P24)}})
rain = 0.00015                  # wet over 6 hours, dry over a day
out = evaluate({'fc.zarr': forecast({'temperature': 2., P6: rain, P24: rain}, times(2)),
                'era5.zarr': target({'temperature': 3., P6: 0., P24: 0.}, times(4, 6)), 'clim.zarr': clim}, f"""
names = ['temperature', '{P24}', '{P6}']
deterministic_prediction_configs = {{'m_64x32_2020': {{'path': 'DIR/fc.zarr', 'variables': names}}}}
probabilistic_prediction_configs = {{}}
target_configs = {{'era5_64x32': {{'path': 'DIR/era5.zarr', 'variables': names}}}}
climatology_configs = {{'era5_64x32_2020': {{'path': 'DIR/clim.zarr', 'variables': names}}}}
""", 'm', time_start='2020-01-01T00', time_stop='2020-01-02T00')
a, b = (float(out[f'seeps.{p}'].sel(region='global').squeeze()) for p in (P6, P24))
assert abs(a - 1) < 1e-9 and abs(b) < 1e-9, (a, b)
''',
     needs='a model and a target with both precipitation accumulations, and amounts between the two dry thresholds',
     breaks='each accumulation is scored with the dry threshold of the other')

seed('c27-region-mask', 'C27',
     [('public_benchmark/run_benchmark_evaluation.py',
       '''  # Load land-sea mask from ERA5
  land_sea_mask = xr.open_zarr(
      configs.target_configs[f'era5_{RESOLUTION.value}']['path']
  )['land_sea_mask'].compute()
''', '''  # Load land-sea mask from the target if it has one, else from ERA5
  land_sea_mask = xr.open_zarr(target_config['path']).get('land_sea_mask')
  if land_sea_mask is None:
    land_sea_mask = xr.open_zarr(
        configs.target_configs[f'era5_{RESOLUTION.value}']['path']
    )['land_sea_mask']
  land_sea_mask = land_sea_mask.compute()
''')],
     _RUN + '''
other = target({'temperature': 3.}, times(4, 6))
other['land_sea_mask'] = other.land_sea_mask * 0 + np.array([[1., 0.], [0., 0.]])
fc = forecast({'temperature': 2.}, times(2))
fc['temperature'] = fc.temperature + xr.DataArray([0., 10.], dims='longitude', coords={'longitude': LON})
out = evaluate({'fc.zarr': fc, 'era5.zarr': target({'temperature': 3.}, times(4, 6), np.array([[0., 1.], [0., 0.]])),
                'other.zarr': other, 'clim.zarr': climatology({'temperature': 1.})}, """
names = ['temperature']
deterministic_prediction_configs = {'m_64x32_2020': {'path': 'DIR/fc.zarr', 'variables': names}}
probabilistic_prediction_configs = {}
target_configs = {'era5_64x32': {'path': 'DIR/era5.zarr', 'variables': names},
                  'other_64x32': {'path': 'DIR/other.zarr', 'variables': names}}
climatology_configs = {'era5_64x32_2020': {'path': 'DIR/clim.zarr', 'variables': names}}
""", 'm', target='other', time_start='2020-01-01T00', time_stop='2020-01-02T00')
got = float(out['bias.temperature'].sel(region='global_land', level=500).squeeze())
assert abs(got - 9) < 1e-9, got
''',
     needs='a target other than ERA5 whose store carries a land-sea mask different from that of ERA5',
     breaks='scores against different targets are averaged over different land points')

seed('c27-daily-forecasts', 'C27',
     [('public_benchmark/run_benchmark_evaluation.py',
       '''    if PREDICTION.value == 'excarta':
      init_time_frequency = np.timedelta64(24, 'h')
    else:
''', '''    if PREDICTION.value == 'excarta' and INIT_TIME_START.value is None:
      init_time_frequency = np.timedelta64(24, 'h')
    else:
''')],
     _RUN + '''
fc = forecast({'temperature': 2.}, times(6))
fc['temperature'] = fc.temperature + xr.DataArray([0., 5.] * 3, dims='time', coords={'time': fc.time})
out = evaluate({'fc.zarr': fc, 'era5.zarr': target({'temperature': 3.}, times(14, 6)),
                'clim.zarr': climatology({'temperature': 1.})}, """
names = ['temperature']
deterministic_prediction_configs = {'excarta_64x32_2020': {'path': 'DIR/fc.zarr', 'variables': names}}
probabilistic_prediction_configs = {}
target_configs = {'era5_64x32': {'path': 'DIR/era5.zarr', 'variables': names}}
climatology_configs = {'era5_64x32_2020': {'path': 'DIR/clim.zarr', 'variables': names}}
""", 'excarta', time_start='2020-01-01T00', time_stop='2020-01-03T00')
got = float(out['bias.temperature'].sel(region='global', level=500).squeeze())
assert abs(got + 1) < 1e-9, got
''',
     needs='the model initialised once a day, evaluated over an explicitly given period',
     breaks='initialisations the model does not have are requested and scored')
