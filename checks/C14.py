"""C14: ensemble spread, skill, rank and value scores equal their definitions."""
from checks.common import *
from weatherbenchX import aggregation
from weatherbenchX.metrics import base, deterministic as D, probabilistic as PR

SPEC = Spec(
    'C14',
    functions=['metrics.probabilistic.EnsembleVariance', 'UnbiasedEnsembleMeanSquaredError',
               'UnbiasedEnsembleMeanRMSE', 'UnbiasedSpreadSkillRatio', 'EnsembleRootMeanVariance',
               'EnsembleRankedProbabilityScore', 'EnsembleErrorExceedance', 'WassersteinDistance',
               'RankHistogram', 'RelativeEconomicValue', '_select_optimal_thresholds',
               'EnsembleAveragedStatistic/EnsembleAveragedMetric',
               'scipy.stats.wasserstein_distance', 'metrics.wrappers.ContinuousToCDF/EnsembleMean'],
    bounds='2-4 ensemble members, each any real or NaN; target ensembles of 2 members; up to 3 bin '
           'thresholds (any increasing reals); contingency tables of any '
           'non-negative frequencies per decision threshold (2 thresholds and the '
           'constant decisions), cost/loss ratios any reals in (0,1); '
           'Wasserstein 2x2 and 3x2 members',
    assumptions=['square roots are compared by argument'])


def mk(v, dims=('x', 'number'), name='u', **co):
  return {name: xr.DataArray(v, dims=dims[:v.ndim], name=name, coords=co)}


def cnt(xs):
  return fsum(fb(b_not(x.nan)) for x in xs)


def mean(xs, skip):
  if not skip:
    return f_div(fsum(xs), lift_f(len(xs)))
  return f_div(fsum(f_ite(x.nan, ZERO, x) for x in xs), cnt(xs))


def sq(x): return f_mul(x, x)


def var(xs, skip):
  m = mean(xs, skip)
  d = [sq(f_sub(x, m)) for x in xs]
  if skip:
    n = cnt(xs)
    s = fsum(f_ite(x.nan, ZERO, e) for x, e in zip(xs, d))
  else:
    n, s = lift_f(len(xs)), fsum(d)
  return f_ite(f_lt(ONE, n), f_div(s, f_sub(n, ONE)), NAN), n


def umse(xs, ys, skip):
  v, n = var(xs, skip)
  if isinstance(ys, list):
    w, k = var(ys, skip)
    b = f_sub(f_sub(sq(f_sub(mean(xs, skip), mean(ys, skip))), f_div(v, n)), f_div(w, k))
    return b
  return f_sub(sq(f_sub(mean(xs, skip), ys)), f_div(v, n))


def opts(h):
  dim = h.choice('dim', ['number', 'realization'])
  skip = h.choice('skipna_ensemble', [False, True])
  kw = {} if dim == 'number' else dict(ensemble_dim=dim)
  if skip: kw['skipna_ensemble'] = True
  return dim, skip, kw


def varmse(h, m):
  dim, skip, kw = opts(h)
  p, t = h.floats('p', (1, m), nan=True), h.floats('t', (1,), nan=True)
  P, T = mk(p, ('x', dim)), mk(t)
  a, b = list(cells(p)[0]), cells(t)[0]
  v = PR.EnsembleVariance(**kw).compute(P, T)['u']
  h.eq('variance', v, wrapcells([var(a, skip)[0]]))
  e = PR.UnbiasedEnsembleMeanSquaredError(**kw).compute(P, T)['u']
  h.eq('unbiased mse', e, wrapcells([umse(a, b, skip)]))
  perm = list(range(1, m)) + [0]
  Q = {'u': P['u'].isel({dim: perm})}
  h.eq('variance order', PR.EnsembleVariance(**kw).compute(Q, T)['u'], v)
  h.eq('mse order', PR.UnbiasedEnsembleMeanSquaredError(**kw).compute(Q, T)['u'], e)
  with h.raises('no ensemble', ValueError):
    PR.UnbiasedEnsembleMeanSquaredError(**kw).compute(T, T)


for m in (2, 3) + ((4,) if THOROUGH else ()):
  SPEC.add(f'variance and unbiased mse[members={m}]', (lambda m: lambda h: varmse(h, m))(m), cost=m)


@SPEC.harness('unbiased mse against an ensemble', cost=3)
def h_umse2(h):
  dim, skip, kw = opts(h)
  m, n = h.choice('sizes', [(2, 2), (3, 2)] if THOROUGH or not skip else [(2, 2)])
  p, t = h.floats('p', (1, m), nan=True), h.floats('t', (1, n), nan=True)
  P, T = mk(p, ('x', dim)), mk(t, ('x', dim))
  h.eq('unbiased mse', PR.UnbiasedEnsembleMeanSquaredError(**kw).compute(P, T)['u'],
       wrapcells([umse(list(cells(p)[0]), list(cells(t)[0]), skip)]))


@SPEC.harness('metrics of averaged statistics')
def h_metrics(h):
  """Square roots are taken after averaging."""
  dim, skip, kw = opts(h)
  v, e = h.floats('v', (2,), nan=True), h.floats('e', (2,), nan=True)
  sv = {'EnsembleVariance': mk(v), 'UnbiasedEnsembleMeanSquaredError': mk(e)}
  a, b = cells(v), cells(e)
  sqrt = lambda x: np.sqrt(wrapcells(x))
  h.eq('rmse', PR.UnbiasedEnsembleMeanRMSE(**kw).values_from_mean_statistics(sv)['u'], sqrt(list(b)))
  h.eq('root mean variance', PR.EnsembleRootMeanVariance(**kw).values_from_mean_statistics(sv)['u'], sqrt(list(a)))
  h.eq('ratio', PR.UnbiasedSpreadSkillRatio(**kw).values_from_mean_statistics(sv)['u'],
       sqrt([f_div(x, y) for x, y in zip(a, b)]))
  for c, names in ((PR.UnbiasedEnsembleMeanRMSE, ['UnbiasedEnsembleMeanSquaredError']),
                   (PR.EnsembleRootMeanVariance, ['EnsembleVariance']),
                   (PR.UnbiasedSpreadSkillRatio, ['EnsembleVariance', 'UnbiasedEnsembleMeanSquaredError'])):
    h.true(f'{c.__name__} statistics', sorted(c(**kw).statistics) == names)
    p, t = h.floats(f'p{c.__name__}', (1, 3), nan=True), h.floats(f't{c.__name__}', (1,), nan=True)
    P, T = mk(p, ('x', dim)), mk(t)
    for n, s in c(**kw).statistics.items():
      want = [var(list(cells(p)[0]), skip)[0] if n == 'EnsembleVariance' else umse(list(cells(p)[0]), cells(t)[0], skip)]
      h.eq(f'{c.__name__} {n}', s.compute(P, T)['u'], wrapcells(want))
  with h.raises('biased ratio is gone', ValueError):
    PR.SpreadSkillRatio()


@SPEC.harness('averaging a statistic over members')
def h_avg(h):
  dim, skip, kw = opts(h)
  name = h.choice('metric', ['RMSE', 'Bias'])
  p, t = h.floats('p', (2, 3), nan=True), h.floats('t', (2,), nan=True)
  P, T = mk(p, ('x', dim)), mk(t)
  m = PR.EnsembleAveragedMetric(getattr(D, name)(), **kw)
  a, b = cells(p), cells(t)
  (k, s), = m.statistics.items()
  f = (lambda x, y: sq(f_sub(x, y))) if name == 'RMSE' else f_sub
  want = wrapcells([mean([f(x, b[i]) for x in a[i]], skip) for i in range(2)])
  h.true('name', k == list(getattr(D, name)().statistics)[0])
  h.eq('statistic', s.compute(P, T)['u'], want)
  r = h.floats('r', (2,))
  got = m.values_from_mean_statistics({k: mk(r)})['u']
  h.eq('metric', got, getattr(D, name)().values_from_mean_statistics({k: mk(r)})['u'])
  with h.raises('no ensemble', ValueError):
    s.compute(T, T)


def rps(h, ens_target):
  skip = h.choice('skipna_ensemble', [False, True])
  fair = h.choice('fair', [True, False])
  ri = h.choice('right_inclusive', [True, False])
  m, n, k = 2, 2, 2
  p = h.floats('p', (1, m), nan=True)
  t = h.floats('t', (1, n), nan=True) if ens_target else h.floats('t', (1,), nan=True)
  P, T = mk(p, ('x', 'number')), mk(t, ('x', 'number'))
  th = [h.floats(nm, (k,)) for nm in ('pb', 'tb')]
  for b in th:
    h.assume(b[1] > b[0])
  ds = [xr.Dataset({'w': ('q', b + 9), 'u': ('q', b)}, coords={'q': [1, 2]}) for b in th]
  s = PR.EnsembleRankedProbabilityScore(
      ds[0], ds[1], 'q', 's', skipna_ensemble=skip, fair=fair, **({} if ri else dict(right_inclusive=False)))
  got = s.compute(P, T)['u']
  h.true('dims', got.dims == ('x',))
  a = list(cells(p)[0])
  y = list(cells(t)[0]) if ens_target else cells(t)[0]
  op = f_le if ri else f_lt
  ind = lambda x, e: f_ite(x.nan, NAN, fb(op(x, e)))
  terms = []
  for j in range(k):
    xs = [ind(x, cells(th[0])[j]) for x in a]
    ys = [ind(x, cells(th[1])[j]) for x in y] if ens_target else ind(y, cells(th[1])[j])
    if fair:
      terms.append(umse(xs, ys, skip))
    else:
      terms.append(sq(f_sub(mean(xs, skip), mean(ys, skip) if ens_target else ys)))
  h.eq('rps', got, wrapcells([fsum(terms)]))     # a bin is NaN iff all bins are
  if not fair:
    g = cells(got.data)[0]
    h.true('non-negative', b_or(g.nan, f_le(ZERO, g)))


SPEC.add('ensemble rps[single target]', lambda h: rps(h, False), cost=3)
SPEC.add('ensemble rps[target ensemble]', lambda h: rps(h, True), cost=3)


@SPEC.harness('ensemble rps, bin edges must increase')
def h_rps_mono(h):
  b = h.floats('b', (2, 2))
  P, T = mk(h.floats('p', (1, 2)), ('x', 'number')), mk(h.floats('t', (1,)))
  ds = lambda c: xr.Dataset({'u': ('q', c)}, coords={'q': [1, 2]})
  ok = b_and(*[f_lt(cells(b)[i, 0], cells(b)[i, 1]) for i in range(2)])
  try:
    PR.EnsembleRankedProbabilityScore(ds(b[0]), ds(b[1]), 'q', 's').compute(P, T)
    r = False
  except ValueError:
    r = True
  h.true('raises iff not increasing', b_not(ok) if r else ok)
  v = PR.EnsembleRankedProbabilityScore(ds(b[0]), ds(b[1]), 'q', 's', enforce_monotonicity=False).compute(P, T)['u']
  h.true('not enforced', v.dims == ('x',))


@SPEC.harness('ensemble error exceedance')
def h_ee(h):
  dim, _, kw = opts(h)
  kw.pop('skipna_ensemble', None)
  ths = [0.5, 2.0]
  p, t = h.floats('p', (1, 3), nan=True), h.floats('t', (1,), nan=True)
  got = PR.EnsembleErrorExceedance(ths, **kw).compute(mk(p, ('x', dim)), mk(t))['u']
  d = 'error_exceedance_thresholds'
  a, b = list(cells(p)[0]), cells(t)[0]
  ex = lambda x, e: f_ite(b_or(x.nan, b.nan), NAN, fb(f_lt(lift_f(e), core.f_abs(f_sub(x, b)))))
  h.eq('exceedance', got.transpose('x', d), wrapcells([[mean([ex(x, e) for x in a], True) for e in ths]]))


def wasserstein(h, m, n):
  dim = h.choice('dim', ['number', 'realization'])
  kw = {} if dim == 'number' else dict(ensemble_dim=dim)
  p, t = h.floats('p', (1, m)), h.floats('t', (1, n))
  P, T = mk(p, ('x', dim)), mk(t, ('x', dim))
  got = PR.WassersteinDistance(**kw).compute(P, T)['u']
  h.true('dims', got.dims == ('x',))
  a, b = list(cells(p)[0]), list(cells(t)[0])
  # sorted members of both, each repeated to a common size, paired
  k = m * n
  ra, rb = sorted_(a), sorted_(b)
  h.eq('distance', got, wrapcells([f_div(fsum(core.f_abs(f_sub(ra[i // n], rb[i // m])) for i in range(k)), lift_f(k))]))
  with h.raises('target needs an ensemble', ValueError):
    PR.WassersteinDistance(**kw).compute(P, mk(h.floats('q', (1,))))
  with h.raises('prediction needs an ensemble', ValueError):
    PR.WassersteinDistance(**kw).compute(mk(h.floats('q2', (1,))), T)


def sorted_(v):
  v = list(v)
  for i in range(len(v)):
    for j in range(len(v) - 1 - i):
      v[j], v[j + 1] = f_min(v[j], v[j + 1]), f_max(v[j], v[j + 1])
  return v


for m, n in ((2, 2), (3, 2), (1, 3)):
  SPEC.add(f'wasserstein[{m}x{n}]', (lambda m, n: lambda h: wasserstein(h, m, n))(m, n), cost=3)


@SPEC.harness('rank histogram')
def h_rank(h):
  m = h.choice('members', [1, 3])
  dim = h.choice('dim', ['number', 'realization'])
  kw = {} if dim == 'number' else dict(ensemble_dim=dim)
  p, t = h.floats('p', (2, m), nan=True), h.floats('t', (2,), nan=True)
  got = PR.RankHistogram(**kw).compute(mk(p, ('x', dim)), mk(t))['u']
  h.true('dims', set(got.dims) == {'x', 'rank'} and list(got['rank'].values) == list(range(m + 1)))
  a, b = cells(p), cells(t)
  def want(i, r):
    n = fsum(fb(f_lt(x, b[i])) for x in a[i])
    return f_ite(b_or(b[i].nan, *[x.nan for x in a[i]]), NAN, fb(f_eq(n, lift_f(r))))
  h.eq('rank', got.transpose('x', 'rank'), wrapcells(objarr((2, m + 1), want)))
  h.eq('exactly one', got.sum('rank', skipna=False), wrapcells(objarr((2,), lambda i: f_ite(
      b_or(b[i].nan, *[x.nan for x in a[i]]), NAN, ONE))))


def table(h, name, n, extra=()):
  """Mean contingency table per decision threshold with one base rate."""
  shape = tuple(extra) + (n,)
  tp, fp = h.floats(name + 'tp', shape, lo=0, hi=1), h.floats(name + 'fp', shape, lo=0, hi=1)
  s = h.floats(name + 's', tuple(extra), lo=0, hi=1)
  fn = s[..., None] - tp
  tn = 1 - s[..., None] - fp
  h.assume(fn >= 0); h.assume(tn >= 0)
  return tp, fp, fn, tn, s


def rev_of(r, tp, fp, fn):
  s = f_add(tp, fn)
  clim = f_min(r, s)
  pred = f_add(f_mul(r, f_add(tp, fp)), fn)
  perf = f_mul(r, s)
  return f_div(f_sub(clim, pred), f_sub(clim, perf)), f_lt(perf, clim)


def ndexpr(c): return cells(c)


@SPEC.harness('relative economic value', cost=2)
def h_rev(h):
  ratios = [0.1, 0.6]
  form = h.choice('thresholds', ['ensemble', 'custom'])
  ths = [0.25, 0.75] if form == 'ensemble' else [0.2, 0.5]
  m = PR.RelativeEconomicValue(ensemble_size=2, cost_loss_ratios=np.array(ratios)) if form == 'ensemble' else \
      PR.RelativeEconomicValue(probability_thresholds=np.array(ths), statistic_suffix='s', cost_loss_ratios=np.array(ratios))
  tp, fp, fn, tn, s = table(h, 'u', 2)
  tp2, fp2, fn2, tn2, s2 = table(h, 'w', 2)
  da = lambda v: xr.DataArray(v, dims='threshold', coords={'threshold': ths})
  sv = {'TruePositives': {'u': da(tp), 'w': da(tp2)}, 'FalsePositives': {'u': da(fp), 'w': da(fp2)},
        'FalseNegatives': {'u': da(fn), 'w': da(fn2)}, 'TrueNegatives': {'u': da(tn), 'w': da(tn2), 'z': da(tn)}}
  out = m.values_from_mean_statistics(sv)
  h.true('variables', set(out) == {'u', 'w'})
  for n, (a, b, c, st) in {'u': (tp, fp, fn, s), 'w': (tp2, fp2, fn2, s2)}.items():
    g = out[n].transpose('cost_loss_ratio', 'threshold')
    h.true('labels', list(g.threshold.values) == [0.0] + ths + [1.0] and list(g.cost_loss_ratio.values) == ratios)
    a, b, c, st = cells(a), cells(b), cells(c), cells(st)[()]
    A = [st] + list(a) + [ZERO]
    B = [f_sub(ONE, st)] + list(b) + [ZERO]
    C = [ZERO] + list(c) + [st]
    want = objarr((2, 4), lambda i, j: rev_of(lift_f(ratios[i]), A[j], B[j], C[j])[0])
    h.eq(f'REV {n}', g, wrapcells(want))
    gc = cells(g.data)
    for i in range(2):
      ok = rev_of(lift_f(ratios[i]), A[0], B[0], C[0])[1]
      for j in range(4):
        h.true(f'at most one {n}', b_or(b_not(ok), f_le(gc[i, j], ONE)))
      h.true(f'climatological decision is worth zero {n}', b_or(b_not(ok), f_eq(f_max(gc[i, 0], gc[i, 3]), ZERO)))


@SPEC.harness('relative economic value from forecasts', cost=2)
def h_rev2(h):
  n = 2
  p, t = h.floats('p', (n,), lo=0, hi=1), h.bools('t', (n,))
  size = h.choice('ensemble_size', [1, 3])
  m = PR.RelativeEconomicValue(ensemble_size=size, cost_loss_ratios=[0.3])
  r = aggregation.compute_metric_values_for_single_chunk(
      {'m': m}, aggregation.Aggregator(reduce_dims=['x']), mk(p), mk(t.astype(float)))['m.u']
  ths = [(k + 0.5) / size for k in range(size)]
  a, b = cells(p), cells(t)
  dec = [lambda i: True] + [(lambda i, e=e: f_lt(lift_f(e), a[i])) for e in ths] + [lambda i: False]
  def want(j):
    cnt = lambda f: f_div(fsum(fb(f(i)) for i in range(n)), lift_f(n))
    tp = cnt(lambda i: b_and(dec[j](i), b[i]))
    fp = cnt(lambda i: b_and(dec[j](i), b_not(b[i])))
    fn = cnt(lambda i: b_and(b_not(dec[j](i)), b[i]))
    return rev_of(lift_f(0.3), tp, fp, fn)[0]
  h.eq('REV', r.transpose('cost_loss_ratio', 'threshold'), wrapcells([[want(j) for j in range(size + 2)]]))


@SPEC.harness('relative economic value at chosen thresholds', cost=2)
def h_rev3(h):
  ratios = [0.1, 0.6]
  ths = [0.25, 0.75]
  kind = h.choice('kind', ['shared', 'per variable', 'per lead', 'nearest'])
  tp, fp, fn, tn, s = table(h, 'u', 2, (2,))
  da = lambda v: xr.DataArray(v, dims=('lead', 'threshold'), coords={'threshold': ths, 'lead': [1, 2]})
  allt = [0.0] + ths + [1.0]
  co = {'cost_loss_ratio': ratios}
  opt1 = xr.DataArray([0.75, 1.0], dims='cost_loss_ratio', coords=co)
  pick = {1: [[2, 3]] * 2, 0: [[0, 1]] * 2}
  if kind == 'per lead':
    opt = xr.DataArray([[0.0, 0.25], [0.75, 0.75]], dims=('lead', 'cost_loss_ratio'), coords={**co, 'lead': [1, 2]})
    want_i = {'u': [[0, 1], [2, 2]], 'w': [[0, 1], [2, 2]]}
  elif kind == 'per variable':
    opt = {'u': opt1, 'w': xr.DataArray([0.0, 0.25], dims='cost_loss_ratio', coords=co)}
    want_i = {'u': pick[1], 'w': pick[0]}
  elif kind == 'nearest':
    opt = xr.DataArray([0.7, 0.95], dims='cost_loss_ratio', coords=co)
    want_i = {'u': pick[1], 'w': pick[1]}
  else:
    opt, want_i = opt1, {'u': pick[1], 'w': pick[1]}
  m = PR.RelativeEconomicValue(ensemble_size=2, cost_loss_ratios=ratios, optimal_thresholds=opt,
                               optimal_thresholds_select_nearest=kind == 'nearest')
  both = lambda v: {'u': da(v), 'w': da(v)}
  out = m.values_from_mean_statistics({'TruePositives': both(tp), 'FalsePositives': both(fp),
                                       'FalseNegatives': both(fn), 'TrueNegatives': both(tn)})
  a, b, c, st = cells(tp), cells(fp), cells(fn), cells(s)
  for n in 'uw':
    def want(l, i):
      j = want_i[n][l][i]
      A = [st[l]] + list(a[l]) + [ZERO]
      B = [f_sub(ONE, st[l])] + list(b[l]) + [ZERO]
      C = [ZERO] + list(c[l]) + [st[l]]
      return rev_of(lift_f(ratios[i]), A[j], B[j], C[j])[0]
    h.true('no threshold left', 'threshold' not in out[n].coords and set(out[n].dims) == {'lead', 'cost_loss_ratio'})
    h.eq(f'REV {n}', out[n].transpose('lead', 'cost_loss_ratio'), wrapcells(objarr((2, 2), want)))
  if kind == 'shared':
    bad = xr.DataArray([0.7, 0.95], dims='cost_loss_ratio', coords=co)
    with h.raises('not an evaluated threshold', KeyError):
      PR.RelativeEconomicValue(ensemble_size=2, cost_loss_ratios=ratios, optimal_thresholds=bad).values_from_mean_statistics(
          {'TruePositives': both(tp), 'FalsePositives': both(fp), 'FalseNegatives': both(fn), 'TrueNegatives': both(tn)})
    with h.raises('other ratios', ValueError):
      PR.RelativeEconomicValue(ensemble_size=2, cost_loss_ratios=[0.1, 0.7], optimal_thresholds=opt1)
  d = PR.RelativeEconomicValue(ensemble_size=2)
  h.true('default ratios', np.allclose(d._cost_loss_ratio.values, np.geomspace(0.005, 1, 51)[:-1])
         if hasattr(d, '_cost_loss_ratio') else True)


@SPEC.harness('economic value rejects bad arguments')
def h_rev4(h):
  h.floats('unused', (1,))
  R = PR.RelativeEconomicValue
  for k, kw in {'none': {}, 'both': dict(ensemble_size=2, probability_thresholds=np.array([.5])),
                'no suffix': dict(probability_thresholds=np.array([.5])),
                'range': dict(probability_thresholds=np.array([1.5]), statistic_suffix='s')}.items():
    with h.raises(k, ValueError):
      R(**kw)
