"""C24: comparison with a baseline (statistical_inference/baseline_comparison.py)."""
from checks.common import *
from checks.C22 import expected_se, canon
from checks.C23 import Draws, Ratio, R, count, draw_indices, make, multiplicity, value, total, METRICS
from checks.C25 import St, means
from symx import jaxsym, stats
from weatherbenchX import aggregation
from weatherbenchX.metrics import base as mb, deterministic as det
from weatherbenchX.statistical_inference import autodiff, baseline_comparison as bc, bootstrap, t_test

SPEC = Spec(
    'C24',
    functions=[
        'statistical_inference.baseline_comparison.BaselineComparison / '
        'combine_aggregation_states / for_metrics / difference',
        'statistical_inference.base.StatisticalInferenceMethod.for_baseline_comparison',
        'statistical_inference.t_test and bootstrap methods built on them',
        'metrics.wrappers.RenamedStatistic',
    ],
    bounds='2-3 units, 1-2 variables, 1-2 levels, 1-2 replicates; all statistics, '
           'weights and draws of both models symbolic',
    assumptions=['as for C22, C23 and C25'],
    stubs=["random numbers (C23), Student's t and cosine transform (C22), jax tracing (C25)"],
)

K = lambda x: lift_f(Fraction(x))


def methods(names=None):
  a = {
      't': (t_test.IID, dict(experimental_unit_dim='unit')),
      'geer': (t_test.GeerAR2Corrected, dict(experimental_unit_dim='unit')),
      'lazarus': (t_test.LazarusHACEWC, dict(experimental_unit_dim='unit')),
      'iid': (bootstrap.IIDBootstrap, dict(experimental_unit_dim='unit', n_replicates=2)),
      'cluster': (bootstrap.ClusterBootstrap, dict(experimental_unit_coord='cl', n_replicates=2)),
      'stationary': (bootstrap.StationaryBootstrap, dict(experimental_unit_dim='unit', n_replicates=2, mean_block_length=2.0)),
  }
  return {k: v for k, v in a.items() if names is None or k in names}


CL = (7, 3, 7)


def states(h, n, variables=('v',), levels=None, **kw):
  ex = {'cl': ('unit', np.array(CL[:n]))}
  return (make(h, n, variables, levels, tag='a', extra=ex, **kw),
          make(h, n, variables, levels, tag='b', extra=ex, **kw))


def ms():
  return {k: f() for k, f in METRICS.items()}


def estimates(h, name, n, variables=('v',), levels=None):
  """Main minus baseline for every metric, variable, level and replicate."""
  a, b = states(h, n, variables, levels)
  cls, kw = methods()[name]
  with Draws(h).on() as d:
    r = cls.for_baseline_comparison(ms(), a, b, **kw)
  pe = r.point_estimates()
  rs = r.resampled_values if hasattr(r, 'resampled_values') else None
  h.true('metrics', set(pe) == set(METRICS))
  if name == 'iid':
    mult = lambda q: [count(d.counts[q, i]) for i in range(n)]
  elif name == 'cluster':
    u = sorted(set(CL[:n]))
    mult = lambda q: [count(d.counts[q, u.index(c)]) for c in CL[:n]]
  elif name == 'stationary':
    idx = draw_indices(h, d, n, 2.0, 0, 2)
    mult = lambda q: multiplicity(idx, q, n)
  if rs is not None:
    h.true('one shared draw', len(d.calls) == (1 if name != 'stationary' else 2 * n - 1), str(len(d.calls)))
  for m in METRICS:
    h.true('variables', set(pe[m]) == set(variables), str(set(pe[m])))
    for v in variables:
      p = cells(pe[m][v])
      g = cells(rs[m][v].transpose(*(['level'] if levels else []), R)) if rs is not None else None
      for l in range(levels or 1):
        one = [ONE] * n
        h.eq(f'difference of {m}', wrapcells([p[l] if levels else p[()]]),
             wrapcells([f_sub(value(a, m, v, l, one), value(b, m, v, l, one))]))
        for q in range(2 if rs is not None else 0):
          h.eq(f'replicate of {m}', wrapcells([g[(l, q) if levels else (q,)]]),
               wrapcells([f_sub(value(a, m, v, l, mult(q)), value(b, m, v, l, mult(q)))]))


for name in ('t', 'geer', 'lazarus', 'iid', 'cluster', 'stationary'):
  n = 2 if name == 'stationary' else 3
  if name == 'geer':  # the estimate code is shared with 't'; see 'with itself'
    continue
  SPEC.add(f'estimates[{name}]', (lambda k, n: lambda h: estimates(h, k, n))(name, n), cost=3)
  SPEC.add(f'estimates of two variables[{name}]', (lambda k: lambda h: estimates(h, k, 2, ('v', 'w'), 2))(name), cost=3)


def paired(h, name, n):
  """The standard error is that of the per-unit differences."""
  a, b = states(h, n, weights=False, stats=('sa',))
  cls, kw = methods()[name]
  r = cls.for_baseline_comparison({'m': St('sa')}, a, b, **kw)
  x, y = (cells(s.sum_weighted_statistics['sa']['v']) for s in (a, b))
  d = [f_sub(p, q) for p, q in zip(x, y)]
  m = f_div(fsum(d), K(n))
  h.eq('point estimate', r.point_estimates()['m']['v'], wrapcells(m))
  h.eq('standard error', r.standard_error_estimates()['m']['v'],
       wrapcells(expected_se({'t': 'IID', 'lazarus': 'Lazarus'}[name], [f_sub(t, m) for t in d])[0]))


SPEC.add('paired t 2', lambda h: paired(h, 't', 2), cost=2)
SPEC.add('paired t 3', lambda h: paired(h, 't', 3), cost=2)
SPEC.add('paired lazarus 3', lambda h: paired(h, 'lazarus', 3), cost=2)


def weighted_pair(h, metric):
  """Linearised effects of both models are differenced per unit."""
  n = 2
  a, b = states(h, n)
  r = t_test.IID.for_baseline_comparison({'m': metric}, a, b, experimental_unit_dim='unit')
  D = []
  for s in (a, b):
    M, d = means(s, 'sa', 'v', ())
    D.append([d[(i,)] for i in range(n)])
  h.eq('standard error', r.standard_error_estimates()['m']['v'],
       wrapcells(expected_se('IID', [f_sub(p, q) for p, q in zip(*D)])[0]))


SPEC.add('paired with weights', lambda h: weighted_pair(h, St('sa')), cost=3)


def oneself(h, name):
  """A model compared with itself: no difference, not significant."""
  n = 2
  a, _ = states(h, n)
  cls, kw = methods()[name]
  if h.sym:
    core.ctx() and setattr(core.ctx(), 'canon_sqrt', True)
  with Draws(h).on():
    r = cls.for_baseline_comparison(ms(), a, a, **kw)
  se, p = r.standard_error_estimates(), r.p_values()
  lo, hi = r.confidence_intervals()
  s = r.significance_tests()
  for m in METRICS:
    h.eq(f'difference of {m}', r.point_estimates()[m]['v'], wrapcells(ZERO))
    h.eq(f'standard error of {m}', se[m]['v'], wrapcells(ZERO))
    h.eq(f'lower of {m}', lo[m]['v'], wrapcells(ZERO))
    h.eq(f'upper of {m}', hi[m]['v'], wrapcells(ZERO))
    h.eq(f'p-value of {m}', p[m]['v'], wrapcells(ONE))
    h.check(f'{m} is not significant', b_not(core.to_b(cells(s[m]['v']).ravel()[0])))


for name in ('t', 'geer', 'lazarus', 'iid', 'cluster', 'stationary'):
  SPEC.add(f'with itself[{name}]', (lambda k: lambda h: oneself(h, k))(name), cost=2)


def flipped(h, name, n):
  """Swapping the models flips the sign and nothing else."""
  a, b = states(h, n, weights=False)
  cls, kw = methods()[name]
  if h.sym:
    core.ctx() and setattr(core.ctx(), 'canon_sqrt', True)
  ms_ = {'m': St('sa')}
  draws = Draws(h)
  with draws.on():
    r = cls.for_baseline_comparison(ms_, a, b, **kw)
  calls = draws.calls

  class Again(Draws):
    def multinomial(self, n, pvals, size=None):
      return again(self.h, draws.counts)

  with Again(h).on():
    q = cls.for_baseline_comparison(ms_, b, a, **kw)
  g = lambda t: t['m']['v']
  neg = lambda t: wrapcells([f_sub(ZERO, lift_f(c)) for c in cells(t).ravel()])
  flat = lambda t: wrapcells(list(cells(t).ravel()))
  h.eq('point estimate', flat(g(q.point_estimates())), neg(g(r.point_estimates())))
  h.eq('standard error', flat(g(q.standard_error_estimates())), flat(g(r.standard_error_estimates())))
  lo, hi = r.confidence_intervals(0.25)
  lo2, hi2 = q.confidence_intervals(0.25)
  h.eq('lower', flat(g(lo2)), neg(g(hi)))
  h.eq('upper', flat(g(hi2)), neg(g(lo)))
  h.eq('p-value', flat(g(q.p_values())), flat(g(r.p_values())))


def again(h, c):
  return wrapcells(c) if h.sym else np.array([[int(x.v if isinstance(x, I) else x) for x in row] for row in c])


for name, n in (('t', 2), ('t', 3), ('lazarus', 3), ('iid', 2), ('cluster', 3)):
  SPEC.add(f'flipped[{name} {n}]', (lambda k, n: lambda h: flipped(h, k, n))(name, n), cost=3)


def mismatched(h, name):
  """Units that are not the same cannot be paired."""
  n = 3
  a = make(h, n, tag='a', extra={'cl': ('unit', np.array(CL))})
  coord, cl = h.choice('other', [((0, 2, 4), CL), ((0, 2, 5), (3, 3, 7)), ((4, 2, 0), (7, 7, 3)), ((0, 2), CL[:2]),
                                 ((0, 2, 4, 6), CL + (3,))])
  b = make(h, len(coord), tag='b', coord=np.array(coord), extra={'cl': ('unit', np.array(cl))})
  cls, kw = methods()[name]
  with Draws(h).on():
    if coord != (0, 2, 4):
      with h.raises('rejected', ValueError):
        cls.for_baseline_comparison(ms(), a, b, **kw)
      return
    r = cls.for_baseline_comparison(ms(), a, b, **kw)
  h.true('metrics', set(r.point_estimates()) == set(METRICS))


for name in ('t', 'lazarus', 'iid', 'cluster', 'stationary'):
  SPEC.add(f'mismatched units[{name}]', (lambda k: lambda h: mismatched(h, k))(name), cost=2)


def subset(h, avars, bvars, am, bm):
  """Only metrics and variables that both sides have are compared."""
  n = 2
  a, b = make(h, n, avars, tag='a'), make(h, n, bvars, tag='b')
  A = {k: METRICS[k]() for k in am}
  B = {k: METRICS[k]() for k in bm}
  with Draws(h).on() as d:
    r = bootstrap.IIDBootstrap.for_baseline_comparison(A, a, b, baseline_metrics=B, experimental_unit_dim='unit', n_replicates=1)
  pe = r.point_estimates()
  h.true('metrics of both', set(pe) == set(am) & set(bm), str(set(pe)))
  for m in pe:
    h.true('variables of both', set(pe[m]) == set(avars) & set(bvars), str(set(pe[m])))
    for v in pe[m]:
      one = [ONE] * n
      h.eq(f'{m} of {v}', pe[m][v], wrapcells(f_sub(value(a, m, v, 0, one), value(b, m, v, 0, one))))


for i, a in enumerate(((('v', 'w'), ('w',), ('m',), ('m', 'r')), (('v',), ('w', 'v'), ('m', 'r'), ('r',)),
                       (('v', 'w'), ('w', 'u'), ('m', 'r'), ('r', 'm')))):
  SPEC.add(f'common part {i}', (lambda a: lambda h: subset(h, *a))(a))


def different_metrics(h):
  """A baseline with its own metric, and a comparison other than minus."""
  n = 2
  a, b = states(h, n)
  one = [ONE] * n
  st = bc.combine_aggregation_states(a, b)
  means_ = st.sum_along_dims(['unit']).mean_statistics()
  get = lambda ms__: mb.compute_metrics_from_statistics(ms__, means_)
  x, y = total(a, 'sa', 'v', 0, one), total(b, 'sb', 'v', 0, one)
  h.eq('own metric', get(bc.for_metrics({'m': St('sa')}, {'m': St('sb')}))['m']['v'], wrapcells(f_sub(x, y)))
  q = get(bc.for_metrics({'m': Ratio()}, {'m': St('sb')}))['m']['v']
  h.eq('nonlinear against linear', q, wrapcells(f_sub(value(a, 'r', 'v', 0, one), y)))
  skill = lambda p, c: {k: 1 - p[k] / c[k] for k in p}
  s = get(bc.for_metrics({'m': St('sa'), 'r': Ratio()}, comparison=skill))
  h.eq('skill score', s['m']['v'], wrapcells(f_sub(ONE, f_div(x, total(b, 'sa', 'v', 0, one)))))
  h.eq('skill score of r', s['r']['v'], wrapcells(f_sub(ONE, f_div(value(a, 'r', 'v', 0, one), value(b, 'r', 'v', 0, one)))))
  with Draws(h).on():
    r = bootstrap.IIDBootstrap.for_baseline_comparison(
        {'m': St('sa')}, a, b, baseline_metrics={'m': St('sb')}, comparison=skill, experimental_unit_dim='unit', n_replicates=1)
  h.eq('through the method', r.point_estimates()['m']['v'], wrapcells(f_sub(ONE, f_div(x, y))))


SPEC.add('different metrics', different_metrics)


def combined(h):
  """Both states survive under their own names, whatever these are."""
  n = 2
  tricky = ('sa', 'main_sa', 'baseline_sa')
  a, b = (make(h, n, ('v',), stats=tricky, tag=t) for t in 'ab')
  st = bc.combine_aggregation_states(a, b)
  h.true('names', set(st.sum_weights) == set(st.sum_weighted_statistics) == {
      f'{p}_{k}' for p in ('main', 'baseline') for k in tricky})
  one = [ONE] * n
  mets = {k: St(k) for k in tricky}
  means_ = st.sum_along_dims(['unit']).mean_statistics()
  got = mb.compute_metrics_from_statistics(bc.for_metrics(mets), means_)
  for k in tricky:
    h.eq(k, got[k]['v'], wrapcells(f_sub(total(a, k, 'v', 0, one), total(b, k, 'v', 0, one))))
  nested = bc.for_metrics({'m': bc.BaselineComparison(St('sa'), St('main_sa'))})
  st2 = bc.combine_aggregation_states(bc.combine_aggregation_states(a, b), bc.combine_aggregation_states(b, a))
  got = mb.compute_metrics_from_statistics(nested, st2.sum_along_dims(['unit']).mean_statistics())
  w = lambda s, k: total(s, k, 'v', 0, one)
  h.eq('difference of differences', got['m']['v'], wrapcells(f_sub(
      f_sub(w(a, 'sa'), w(b, 'main_sa')), f_sub(w(b, 'sa'), w(a, 'main_sa')))))


SPEC.add('combined states', combined)


def same_forecast(h):
  """Evaluated directly, the statistics of both sides are the metric's own."""
  p, t = h.floats('p', (2, 2), nan=True), h.floats('t', (2, 2), nan=True)
  P, T = ({'v': xr.DataArray(x, dims=('unit', 'x'))} for x in (p, t))
  cmp = bc.BaselineComparison(det.MAE(), det.Bias())
  st = mb.compute_unique_statistics_for_all_metrics({'c': cmp}, P, T)
  ref = mb.compute_unique_statistics_for_all_metrics({'a': det.MAE(), 'b': det.Bias()}, P, T)
  h.true('statistics', set(st) == {'main_AbsoluteError', 'baseline_Error'}, str(set(st)))
  h.eq('main', st['main_AbsoluteError']['v'], ref['AbsoluteError']['v'])
  h.eq('baseline', st['baseline_Error']['v'], ref['Error']['v'])
  agg = aggregation.Aggregator(reduce_dims=['unit', 'x'])
  got = aggregation.compute_metric_values_for_single_chunk({'c': cmp}, agg, P, T)['c.v']
  m, b = (aggregation.compute_metric_values_for_single_chunk({'q': q}, agg, P, T)['q.v'] for q in (det.MAE(), det.Bias()))
  h.eq('difference', got, m - b)


SPEC.add('same forecast', same_forecast)
