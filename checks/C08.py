"""C08: metrics evaluated together give the values they give alone."""
from checks.common import *
from weatherbenchX import aggregation
from weatherbenchX.metrics import base, categorical, deterministic, probabilistic, spatial, wrappers

SPEC = Spec(
    'C08',
    functions=['metrics.base.compute_unique_statistics_for_all_metrics',
               'metrics.base.compute_metrics_from_statistics',
               'unique_name / unique_name_suffix / statistics / compute of every '
               'metric, statistic, wrapper and transform class of '
               'weatherbenchX.metrics', 'aggregation.Aggregator.aggregate_statistics',
               'AggregationState.metric_values', 'PerVariableStatistic.compute',
               'PerVariableMetric.values_from_mean_statistics'],
    bounds='two variables on 2x2 grids (3x3 for neighbourhoods), 3 ensemble '
           'members, values symbolic with or without NaN; for every class a '
           'set of instances pairwise differing in one parameter is evaluated '
           'together (in both orders) and compared with each alone',
    assumptions=['names a user must supply (unique_name_suffix for xarray '
                 'thresholds, RenamedStatistic) are supplied distinct'])

D, P, C, S, Wr = deterministic, probabilistic, categorical, spatial, wrappers


def run(h, metrics, pred, targ, reduce_dims, tabulate=False):
  """metrics: list of (name, metric)."""
  agg = aggregation.Aggregator(reduce_dims=reduce_dims)

  def evaluate(ms):
    stats = base.compute_unique_statistics_for_all_metrics(ms, pred, targ)
    state = agg.aggregate_statistics(stats)
    mean = state.mean_statistics()
    return base.compute_metrics_from_statistics(ms, mean), state

  alone = {n: evaluate({n: m})[0][n] for n, m in metrics}
  for tag, order in (('', metrics), (' reversed', metrics[::-1])):
    got, state = evaluate(dict(order))
    if tabulate:
      table = state.metric_values(dict(order))
      h.true('table' + tag, set(table) == {f'{n}.{v}' for n in alone for v in alone[n]}, str(set(table)))
    h.true('metrics' + tag, set(got) == set(alone))
    for n, m in metrics:
      h.true(f'{n} variables' + tag, set(got[n]) == set(alone[n]),
             f'{set(got[n])} vs {set(alone[n])}')
      for v in alone[n]:
        g, w = got[n][v], alone[n][v]
        if not (set(g.dims) == set(w.dims) and dict(g.sizes) == dict(w.sizes)):
          h.fail(f'{n}.{v} dims' + tag, f'{g.sizes} vs {w.sizes}')
          continue
        for c in w.coords:
          if c in g.coords and w.coords[c].dtype.kind in 'fiUO' and c != 'mask':
            h.true(f'{n}.{v} coord {c}' + tag, g.coords[c].values.tolist()
                   == w.coords[c].values.tolist())
        h.eq(f'{n}.{v}' + tag, g.transpose(*w.dims), w)
        if tabulate:
          # Metrics may have different labels; none of them may be lost.
          g = table[f'{n}.{v}']
          labels = {d: w.indexes[d] for d in w.dims if d in w.indexes}
          if not all(k.isin(g.indexes[d]).all() for d, k in labels.items()):
            h.fail(f'{n}.{v} table labels' + tag, f'{g.coords}')
            continue
          h.eq(f'{n}.{v} table' + tag, g.sel(labels).transpose(*w.dims), w)


def field(h, name, dims, sizes, nan=True, **kw):
  coords = {'latitude': [10., 20., 30.], 'longitude': [0., 10., 20., 30.],
            'number': [0, 1, 2, 3]}
  shape = [sizes[d] for d in dims]
  return xr.DataArray(h.floats(name, shape, nan=nan, **kw), dims=dims,
                      coords={d: coords[d][:sizes[d]] for d in dims if d in coords},
                      name=name.split('_')[-1])


def det(h, nan=True, names=('u', 'v'), n=2, **kw):
  sz = dict(latitude=n, longitude=n)
  mk = lambda p: {v: field(h, f'{p}_{v}', ('latitude', 'longitude'), sz, nan, **kw)
                  for v in names}
  return mk('p'), mk('t')


def ens(h, nan=True, names=('u',), m=3, targ_ens=None, cells_=1, dim='number', **kw):
  sz = dict(latitude=cells_, number=m)
  p = {v: field(h, f'p_{v}', ('number', 'latitude'), sz, nan, **kw) for v in names}
  td = ('latitude',) if not targ_ens else ('number', 'latitude')
  tz = dict(sz, number=targ_ens or 0)
  t = {v: field(h, f't_{v}', td, tz, nan, **kw) for v in names}
  return p, t


LL = ['latitude', 'longitude']


@SPEC.harness('deterministic statistics')
def h_det(h):
  p, t = det(h)
  run(h, [('Error', D.Error()), ('AbsoluteError', D.AbsoluteError()),
          ('SquaredError', D.SquaredError()), ('RMSE', D.RMSE()),
          ('PredictionAverage', D.PredictionAverage()),
          ('TargetAverage', D.TargetAverage()),
          ('WindVectorSE', D.WindVectorSquaredError(['u'], ['v'], ['wind'])),
          ('WindVectorRMSE', D.WindVectorRMSE('u', 'v', 'wind')),
          ('WindVectorRMSE2', D.WindVectorRMSE('u', 'v', 'wind2')),
          ('Exceedance', D.ErrorExceedance([0.5])),
          ('Sub', Wr.SubselectVariables(D.RMSE(), ['u'])),
          ('Sub2', Wr.SubselectVariables(D.RMSE(), ['v'])),
          ('SubStat', Wr.SubselectVariables(D.Error(), ['u', 'v'])),
          ('Relu', Wr.WrappedMetric(D.RMSE(), [Wr.ReLU('predictions')])),
          ('Relu both', Wr.WrappedMetric(D.RMSE(), [Wr.ReLU('both')])),
          ('Relu targets', Wr.WrappedMetric(D.RMSE(), [Wr.ReLU('targets')]))],
      p, t, LL)


@SPEC.harness('variable lists')
def h_vars(h):
  names = ['a', 'b', 'a_b', 'b_a']
  p, t = ({n: field(h, f'{s}_{n}', ('latitude',), dict(latitude=2)).rename(n) for n in names} for s in 'pt')
  run(h, [('1', Wr.SubselectVariables(D.Bias(), ['a', 'b'])), ('2', Wr.SubselectVariables(D.Bias(), ['a_b'])),
          ('3', Wr.SubselectVariables(D.Bias(), ['a', 'b_a'])), ('4', Wr.SubselectVariables(D.Bias(), ['a_b', 'a'])),
          ('5', Wr.SubselectVariables(D.Bias(), ['b']))], p, t, ['latitude'])


@SPEC.harness('passthrough NaN copying')
def h_pass(h):
  p, t = det(h, names=('u',))
  run(h, [('p', D.PredictionPassthrough()), ('pc', D.PredictionPassthrough(copy_nans_from_targets=True)),
          ('t', D.TargetPassthrough()), ('tc', D.TargetPassthrough(copy_nans_from_predictions=True))],
      p, t, [])


@SPEC.harness('error exceedance thresholds')
def h_exc(h):
  p, t = det(h, names=('u',))
  run(h, [('a', D.ErrorExceedance([0.5])), ('b', D.ErrorExceedance([1.0])),
          ('c', D.ErrorExceedance([0.5, 1.0])), ('d', D.ErrorExceedance((1.0, 2.0)))], p, t, LL, tabulate=True)


@SPEC.harness('ensemble error exceedance thresholds')
def h_eexc(h):
  p, t = ens(h)
  run(h, [('a', P.EnsembleErrorExceedance([0.5])), ('b', P.EnsembleErrorExceedance([1.0])),
          ('c', P.EnsembleErrorExceedance([0.5, 1.0])), ('d', D.ErrorExceedance([0.5]))],
      p, t, ['latitude'])


@SPEC.harness('wind component names')
def h_wind(h):
  p, t = det(h, names=('u', 'v', 'w'), n=1)
  run(h, [('uv', D.WindVectorRMSE('u', 'v', 'wind')), ('uw', D.WindVectorRMSE('u', 'w', 'wind')),
          ('vw', D.WindVectorRMSE(['v'], ['w'], ['wind']))], p, t, LL)


@SPEC.harness('relative intensity dims')
def h_ri(h):
  p, t = det(h, names=('u',), nan=False, lo=0, hi=10)
  run(h, [('both', D.RelativeIntensity()), ('lat', D.RelativeIntensity(('latitude',))),
          ('lon', D.RelativeIntensity(('longitude',)))], p, t, [])


@SPEC.harness('ensemble skipna')
def h_skipna(h):
  p, t = ens(h)
  out = [('SE', D.SquaredError())]
  for s in (False, True):
    out += [(f'CRPS {s}', P.CRPSEnsemble(skipna_ensemble=s)),
            (f'variance {s}', P.EnsembleRootMeanVariance(skipna_ensemble=s)),
            (f'RMSE {s}', P.UnbiasedEnsembleMeanSquaredError(skipna_ensemble=s))]
  run(h, out, p, t, ['latitude'])


@SPEC.harness('ensemble averaged skipna')
def h_eavg(h):
  p, t = ens(h)
  out = []
  for s in (False, True):
    out += [(f'mean SE {s}', P.EnsembleAveragedMetric(D.RMSE(), skipna_ensemble=s)),
            (f'mean of {s}', Wr.WrappedMetric(D.RMSE(), [Wr.EnsembleMean('predictions', skipna=s)]))]
  run(h, out, p, t, ['latitude'])


@SPEC.harness('CRPS variants')
def h_crps(h):
  p, t = ens(h, nan=False)
  run(h, [('fair', P.CRPSEnsemble()), ('unfair', P.CRPSEnsemble(fair=False)),
          ('sort', P.CRPSEnsemble(use_sort=True)),
          ('sort unfair', P.CRPSEnsemble(use_sort=True, fair=False))], p, t, ['latitude'])


@SPEC.harness('CRPS distance')
def h_crpsd(h):
  p, t = ens(h, nan=False, targ_ens=2, m=2)
  run(h, [('distance', P.CRPSEnsembleDistance()), ('crps', P.CRPSEnsemble()),
          ('unfair', P.CRPSEnsembleDistance(fair=False)),
          ('spread', P.CRPSSpread()), ('target spread', P.CRPSSpread(which='targets')),
          ('unbiased', P.UnbiasedEnsembleMeanSquaredError())], p, t, ['latitude'])


@SPEC.harness('two ensemble dims')
def h_dims(h):
  p = {'u': xr.DataArray(h.floats('p', (2, 3), nan=True), dims=('number', 'member'))}
  t = {'u': xr.DataArray(h.floats('t', (), nan=True))}
  out = []
  for d in ('number', 'member'):
    out += [('skill ' + d, P.CRPSSkill(ensemble_dim=d)), ('spread ' + d, P.CRPSSpread(ensemble_dim=d)),
            ('var ' + d, P.EnsembleVariance(ensemble_dim=d)),
            ('umse ' + d, P.UnbiasedEnsembleMeanSquaredError(ensemble_dim=d)),
            ('avg ' + d, P.EnsembleAveragedMetric(D.MSE(), ensemble_dim=d)),
            ('mean ' + d, Wr.WrappedMetric(D.MSE(), [Wr.EnsembleMean('predictions', d)])),
            ('exceed ' + d, P.EnsembleErrorExceedance([0.5], ensemble_dim=d)),
            ('rank ' + d, P.RankHistogram(ensemble_dim=d))]
  run(h, out, p, t, [])


@SPEC.harness('weibull dims and skipna')
def h_weib(h):
  p = {'u': xr.DataArray(h.floats('p', (2, 3), nan=True), dims=('number', 'member'))}
  t = {'u': xr.DataArray(h.floats('t', (), nan=True))}
  out = []
  for d in ('number', 'member'):
    for s in (False, True):
      out.append((f'{d} {s}', Wr.WrappedMetric(
          D.MSE(), [Wr.WeibullEnsembleToProbabilistic('predictions', d, s)])))
  run(h, out, p, t, [])


@SPEC.harness('binary thresholds')
def h_thr(h):
  p, t = det(h, names=('u',), n=1)
  out = []
  for tag, thr in (('0.5', 0.5), ('1', 1.0), ('list', [0.5, 1.0])):
    for which in ('both',):
      out += [(f'{m.__name__} {tag} {which}', Wr.WrappedMetric(
          m(), [Wr.ContinuousToBinary(which, thr, 'threshold')]))
              for m in (C.CSI, C.Accuracy, C.FrequencyBias)]
  out.append(('other dim', Wr.WrappedMetric(C.CSI(), [Wr.ContinuousToBinary('both', 0.5, 'level')])))
  out.append(('order', Wr.WrappedMetric(C.CSI(), [Wr.ReLU('both'), Wr.ContinuousToBinary('both', 0.5, 'threshold')])))
  run(h, out, p, t, LL)


CLOSE = [(100000.0, 100000.3), (1e-7, 2e-7), (0.5, 0.5000000001), (273.15, 273.25), (-1.0, 1.0), (1.0, 10.0)]


def close(h, pair):
  """Parameters that are nearly equal are still different."""
  p, t = det(h, names=('u',), n=1)
  w = lambda m, tr: Wr.WrappedMetric(m, [tr])
  out = []
  for k, v in zip('ab', pair):
    out += [(k + 'binary', w(C.FrequencyBias(), Wr.ContinuousToBinary('both', v, 'threshold'))),
            (k + 'binaries', w(C.FrequencyBias(), Wr.ContinuousToBinary('both', [-5.0, v], 'threshold'))),
            (k + 'bins', w(D.MSE(), Wr.ContinuousToBins('both', [-np.inf, v, np.inf], 'bin'))),
            (k + 'cdf', w(D.MSE(), Wr.ContinuousToCDF('both', [-5.0, v], 'bin'))),
            (k + 'exc', D.ErrorExceedance([v]))]
  run(h, out, p, t, LL)


def close_ens(h, pair):
  p, t = ens(h, m=2)
  run(h, [x for k, v in zip('ab', pair) for x in (
      (k + 'exc', P.EnsembleErrorExceedance([v])),
      (k + 'binary', Wr.WrappedMetric(D.MSE(), [Wr.EnsembleMean('predictions'), Wr.ContinuousToBinary('both', v, 'thr')])))],
      p, t, ['latitude'])


for pair in CLOSE:
  SPEC.add(f'nearly equal thresholds[{pair}]', (lambda q: lambda h: close(h, q))(pair))
  SPEC.add(f'nearly equal thresholds[ensemble {pair}]', (lambda q: lambda h: close_ens(h, q))(pair))


@SPEC.harness('transform order')
def h_order(h):
  p, t = det(h, names=('u',), n=1)
  sh = lambda v: Wr.ShiftAlongNewDim('predictions', v, 'shift', f'shift_{v}')
  r = Wr.ReLU('predictions')
  run(h, [('rs', Wr.WrappedMetric(D.MSE(), [r, sh(1.0)])), ('sr', Wr.WrappedMetric(D.MSE(), [sh(1.0), r])),
          ('r', Wr.WrappedMetric(D.MSE(), [r])), ('s', Wr.WrappedMetric(D.MSE(), [sh(1.0)])),
          ('s2', Wr.WrappedMetric(D.MSE(), [sh(2.0)])),
          ('named', Wr.WrappedMetric(D.MSE(), [r], unique_name_suffix='first')),
          ('named2', Wr.WrappedMetric(D.MSE(), [sh(1.0)], unique_name_suffix='second')),
          ('named3', Wr.WrappedMetric(D.MAE(), [sh(1.0)], unique_name_suffix='second'))],
      p, t, LL)


@SPEC.harness('bins and CDF')
def h_bins(h):
  p, t = det(h, names=('u',), n=1)
  bins = lambda e, dim='bin': Wr.ContinuousToBins('both', e, dim)
  cdf = lambda e, dim='bin', **k: Wr.ContinuousToCDF('both', e, dim, **k)
  run(h, [('b1', Wr.WrappedMetric(D.MSE(), [bins([-np.inf, 0., np.inf])])),
          ('b2', Wr.WrappedMetric(D.MSE(), [bins([-np.inf, 1., np.inf])])),
          ('b3', Wr.WrappedMetric(D.MSE(), [bins([-np.inf, 1., np.inf], 'other')])),
          ('c1', Wr.WrappedMetric(D.MSE(), [cdf([0., 1.])])),
          ('c2', Wr.WrappedMetric(D.MSE(), [cdf([0., 1.], right_inclusive=False)])),
          ('c3', Wr.WrappedMetric(D.MSE(), [cdf([0., 2.])])),
          ('b4', Wr.WrappedMetric(D.MSE(), [bins([-1., 0., 1.]), Wr.Select('both', isel={'bin': 0})])),
          ('b5', Wr.WrappedMetric(D.MSE(), [bins([-1., 0., 1.]), Wr.Select('both', isel={'bin': 1})]))],
      p, t, LL)


@SPEC.harness('select, rename, stack')
def h_sel(h):
  p, t = det(h, names=('u',))
  sel = lambda **k: Wr.WrappedMetric(D.MSE(), [Wr.Select('both', **k)])
  run(h, [('i0', sel(isel={'latitude': 0})), ('i1', sel(isel={'latitude': 1})),
          ('s0', sel(sel={'latitude': 10.})), ('s1', sel(sel={'latitude': 20.})),
          ('j0', sel(isel={'longitude': 0})),
          ('k', sel(sel={'latitude': 14.}, sel_kwargs={'method': 'nearest'})),
          ('k2', sel(sel={'latitude': 14.}, sel_kwargs={'method': 'bfill'})),
          ('ren', Wr.WrappedMetric(D.MSE(), [Wr.Rename('both', {'latitude': 'lat'})])),
          ('stack', Wr.WrappedMetric(D.MSE(), [Wr.StackToNewDimension('both', ['latitude', 'longitude'], 'pt')])),
          ('stack2', Wr.WrappedMetric(D.MSE(), [Wr.StackToNewDimension('both', ['longitude', 'latitude'], 'pt')]))],
      p, t, [])


@SPEC.harness('rank probability bin dims')
def h_rps(h):
  p = {'u': xr.DataArray(h.floats('p', (2, 2), 0, 1), dims=('a', 'b'))}
  t = {'u': xr.DataArray(h.floats('t', (2, 2), 0, 1), dims=('a', 'b'))}
  run(h, [('a', C.RankedProbabilityScore('a')), ('b', C.RankedProbabilityScore('b'))], p, t, [])


@SPEC.harness('ensemble rank probability')
def h_erps(h):
  p, t = ens(h, m=2, nan=True)
  thr = lambda *x: xr.DataArray(list(x), dims='bin')
  mk = lambda sfx, th, **k: P.EnsembleRankedProbabilityScore(th, th, 'bin', sfx, **k)
  a, b = thr(0., 1.), thr(0., 2.)
  run(h, [('a', mk('a', a)), ('b', mk('b', b)), ('unfair', mk('a', a, fair=False)),
          ('skipna', mk('a', a, skipna_ensemble=True))], p, t, ['latitude'])


@SPEC.harness('ensemble rank probability edge side')
def h_erps2(h):
  p, t = ens(h, m=2, nan=False)
  th = xr.DataArray([0., 1.], dims='bin')
  mk = lambda **k: P.EnsembleRankedProbabilityScore(th, th, 'bin', 'a', **k)
  run(h, [('right', mk()), ('left', mk(right_inclusive=False))], p, t, ['latitude'])


@SPEC.harness('fractions skill score')
def h_fss(h):
  p, t = det(h, names=('u',), nan=False, n=3, lo=0, hi=1)
  run(h, [('1', S.FSS(1)), ('3', S.FSS(3)), ('3w', S.FSS(3, wrap_longitude=True)),
          ('list', S.FSS([1, 3])), ('listw', S.FSS([1, 3], True))], p, t, LL)


@SPEC.harness('reliability')
def h_rel(h):
  p, t = det(h, names=('u',), nan=True, n=1, lo=0, hi=1)
  t = {k: (v > 0.5).astype(float) for k, v in t.items()}
  run(h, [('10', C.Reliability()), ('2', C.Reliability([-np.inf, 0.5, 1.])),
          ('2b', C.Reliability([-np.inf, 0.25, 1.])),
          ('dim', C.Reliability([-np.inf, 0.25, 1.], bin_dim='x'))], p, t, LL)


@SPEC.harness('economic value')
def h_rev(h):
  p, t = det(h, names=('u',), nan=False, n=1, lo=0, hi=1)
  t = {k: (v > 0.5).astype(float) for k, v in t.items()}
  r = P.RelativeEconomicValue
  cl = np.array([0.25, 0.5])
  run(h, [('2', r(ensemble_size=2, cost_loss_ratios=cl)), ('4', r(ensemble_size=4, cost_loss_ratios=cl)),
          ('cl', r(ensemble_size=2, cost_loss_ratios=np.array([0.75]))),
          ('p', r(probability_thresholds=np.array([0.25, 0.75]), statistic_suffix='two', cost_loss_ratios=cl)),
          ('q', r(probability_thresholds=np.array([0.125, 0.75]), statistic_suffix='two_b', cost_loss_ratios=cl)),
          ('opt', r(ensemble_size=2, cost_loss_ratios=cl,
                    optimal_thresholds=xr.DataArray([0.25, 0.75], dims='cost_loss_ratio', coords={'cost_loss_ratio': cl})))],
      p, t, LL)


def clim(h, name, dims=(), **kw):
  shape = tuple(kw.pop(d) for d in dims)
  return h.floats(name, (2,) + shape)


def timed(h, names=('u',), n=2, extra=(), sizes=()):
  init = np.array(['2020-01-01T00', '2020-01-02T00'], 'M8[ns]')[:n]
  lead = np.array([0], 'm8[h]').astype('m8[ns]')
  dims = ('init_time', 'lead_time')
  co = {'init_time': init, 'lead_time': lead}
  p = {v: xr.DataArray(h.floats(f'p_{v}', (n, 1) + tuple(sizes)), dims=dims + tuple(extra), coords=co, name=v) for v in names}
  t = {v: xr.DataArray(h.floats(f't_{v}', (n, 1)), dims=dims, coords=co, name=v) for v in names}
  return p, t


def climatology(h, name, names=('u',)):
  return xr.Dataset({v: xr.DataArray(h.floats(f'{name}_{v}', (2,)), dims=('dayofyear',))
                     for v in names}, coords={'dayofyear': [1, 2]})


@SPEC.harness('anomaly scores, one climatology')
def h_acc(h):
  p, t = timed(h, ('u', 'v'), n=1)
  c = climatology(h, 'c', ('u', 'v'))
  run(h, [('ACC', D.ACC(c)), ('activity', D.PredictionActivity(c)),
          ('cov', D.AnomalyCovariance(c)), ('sqp', D.SquaredPredictionAnomaly(c)),
          ('sqt', D.SquaredTargetAnomaly(c)), ('MSE', D.MSE())], p, t, ['init_time', 'lead_time'])


@SPEC.harness('anomaly scores, two climatologies')
def h_acc2(h):
  p, t = timed(h, n=1)
  c, d = climatology(h, 'c'), climatology(h, 'd')
  run(h, [('a', D.PredictionActivity(c)), ('b', D.PredictionActivity(d))], p, t,
      ['init_time', 'lead_time'])


@SPEC.harness('error exceedance, two threshold arrays')
def h_exc2(h):
  p, t = det(h, names=('u',), n=1)
  th = lambda x: xr.DataArray([x], dims='threshold')
  run(h, [('a', D.ErrorExceedance(th(0.5))), ('b', D.ErrorExceedance(th(1.0)))], p, t, LL)


def qclim(h, name):
  q = [0.1, 0.25, 0.75, 0.9]
  a = h.floats(name, (4,))
  for i in range(3):
    h.assume(a[i] <= a[i + 1])
  return xr.Dataset({'u': xr.DataArray(a, dims=('quantile',)).expand_dims(dayofyear=[1, 2])},
                    coords={'quantile': q})


@SPEC.harness('interval statistics')
def h_opp(h):
  p, t = timed(h, n=1, extra=('number',), sizes=(2,))
  c = qclim(h, 'c')
  i2 = (0.25, 0.75)
  run(h, [('conf', C.Confident('number', c)), ('conf t', C.Confident('number', c, confidence_threshold=0.5)),
          ('conf q', C.Confident('number', c, spread_quantile_boundaries=i2)),
          ('cov', C.Covered('number')), ('cov q', C.Covered('number', i2)),
          ('jac', C.JaccardDistant('number', c)), ('jac t', C.JaccardDistant('number', c, threshold=0.25)),
          ('jac q', C.JaccardDistant('number', c, interval_quantile_boundaries=i2))],
      p, t, ['init_time', 'lead_time'])


@SPEC.harness('interval statistics, nearly equal parameters')
def h_opp_close(h):
  p, t = timed(h, n=1, extra=('number',), sizes=(2,))
  c = qclim(h, 'c')
  a, b = 0.5, 0.50000001
  run(h, [('conf a', C.Confident('number', c, confidence_threshold=a)),
          ('conf b', C.Confident('number', c, confidence_threshold=b)),
          ('cov a', C.Covered('number', (0.1, a))), ('cov b', C.Covered('number', (0.1, b))),
          ('cov c', C.Covered('number', (a, 0.9))), ('cov d', C.Covered('number', (b, 0.9))),
          ('jac a', C.JaccardDistant('number', c, threshold=a)),
          ('jac b', C.JaccardDistant('number', c, threshold=b))], p, t, ['init_time', 'lead_time'])


@SPEC.harness('interval statistics, two ensemble dims')
def h_opp_d(h):
  p, t = timed(h, n=1, extra=('number', 'member'), sizes=(2, 2))
  run(h, [('n', C.Covered('number')), ('m', C.Covered('member'))], p, t, ['init_time', 'lead_time'])


@SPEC.harness('interval statistics, two ensemble dims with climatology')
def h_opp_d2(h):
  p, t = timed(h, n=1, extra=('number', 'member'), sizes=(2, 2))
  c = qclim(h, 'c')
  run(h, [('cn', C.Confident('number', c)), ('cm', C.Confident('member', c)),
          ('jn', C.JaccardDistant('number', c)), ('jm', C.JaccardDistant('member', c))],
      p, t, ['init_time', 'lead_time'])


@SPEC.harness('opportunism')
def h_opp2(h):
  p, t = timed(h, n=1, extra=('number',), sizes=(2,))
  c = qclim(h, 'c')
  o = C.Opportunism
  run(h, [('t', o('number', c, True)), ('f', o('number', c, False)),
          ('tc', o('number', c, True, True)), ('tn', o('number', c, True, False)),
          ('tcj', o('number', c, True, True, True)), ('tcn', o('number', c, True, True, False)),
          ('q', o('number', c, True, True, confidence_quantile_boundaries=(0.25, 0.75))),
          ('q2', o('number', c, True, True, coverage_quantile_boundaries=(0.25, 0.75))),
          ('th', o('number', c, True, True, confidence_threshold=0.25))],
      p, t, ['init_time', 'lead_time'])


@SPEC.harness('SEEPS parameters')
def h_seeps(h):
  p, t = timed(h, ('u', 'v'), n=1)
  ds = {}
  for v in ('u', 'v'):
    ds[f'{v}_seeps_threshold'] = xr.DataArray(
        h.floats(f'thr_{v}', (2, 1), 0.001, 1), dims=('dayofyear', 'hour'))
    fr = h.floats(f'frac_{v}', (), 0.01, 0.99)
    ds[f'{v}_seeps_dry_fraction'] = xr.DataArray(fr).expand_dims(dayofyear=[1, 2], hour=[0])
  c = xr.Dataset(ds, coords={'dayofyear': [1, 2], 'hour': [0]})
  s = C.SEEPS
  run(h, [('u', s(['u'], c)), ('v', s(['v'], c)), ('uv', s(['u', 'v'], c)),
          ('dry', s(['u'], c, dry_threshold_mm=0.5)), ('lo', s(['u'], c, min_p1=0.2)),
          ('hi', s(['u'], c, max_p1=0.5)), ('lists', s(['u', 'v'], c, [0.25, 0.5], [0.1, 0.2], [0.85, 0.5]))],
      p, t, ['init_time', 'lead_time'])


@SPEC.harness('contingency metrics')
def h_cont(h):
  dims = ('x',)
  p = {'u': xr.DataArray(h.bools('p', (2,)), dims=dims)}
  t = {'u': xr.DataArray(h.bools('t', (2,)), dims=dims)}
  ms = [C.TruePositives, C.TrueNegatives, C.FalsePositives, C.FalseNegatives, C.CSI,
        C.Accuracy, C.Recall, C.Precision, C.F1Score, C.FrequencyBias, C.FalseAlarmRate,
        C.HSS, C.ETS]
  run(h, [(m.__name__, m()) for m in ms], p, t, ['x'])


@SPEC.harness('common variables')
def h_common(h):
  """Exactly the common variables, each independently of the others."""
  mk = lambda nm, vs: {v: xr.DataArray(h.floats(f'{nm}_{v}', (2,), nan=True), dims='x') for v in vs}
  case = h.choice('case', [('abc', 'bcd'), ('ab', 'ab'), ('ab', 'cd'), ('abc', 'b'), ('b', 'abc')])
  p, t = mk('p', case[0]), mk('t', case[1])
  common = set(case[0]) & set(case[1])
  ms = {'rmse': D.RMSE(), 'bias': D.Bias(), 'csi': Wr.WrappedMetric(
      C.CSI(), [Wr.ContinuousToBinary('both', 0.5, 'threshold')]), 'sub': Wr.SubselectVariables(D.MAE(), ['b'])}
  stats = base.compute_unique_statistics_for_all_metrics(ms, p, t)
  got = base.compute_metrics_from_statistics(ms, stats)
  for n in ms:
    want = common & {'b'} if n == 'sub' else common
    h.true(f'{n} variables', set(got[n]) == want, f'{set(got[n])} vs {want}')
    for v in want:
      one = base.compute_metrics_from_statistics(
          {n: ms[n]}, base.compute_unique_statistics_for_all_metrics({n: ms[n]}, {v: p[v]}, {v: t[v]}))
      h.eq(f'{n}.{v} alone', got[n][v], one[n][v])
  for v in common:
    h.eq(f'bias.{v}', got['bias'][v], [f_sub(a, b) for a, b in zip(cells(p[v]), cells(t[v]))])
