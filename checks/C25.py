"""C25: linearised per-unit values (statistical_inference/autodiff.py)."""
from checks.common import *
import jax
from symx import jaxsym
from weatherbenchX import aggregation
from weatherbenchX.metrics import base as mb, deterministic as det, categorical as cat, probabilistic as prob, spatial, wrappers
from weatherbenchX.statistical_inference import autodiff, baseline_comparison as bc

jaxsym.install(autodiff)

SPEC = Spec(
    'C25',
    functions=[
        'statistical_inference.autodiff.per_unit_values_linearized_around_mean_statistics',
        'statistical_inference.utils.get_and_check_experimental_unit_coord',
        'aggregation.AggregationState.map / map_multi / mean_statistics',
        'metrics.base.compute_metrics_from_statistics',
        'values_from_mean_statistics of every library metric listed in the harnesses',
    ],
    bounds='2-3 units (4 in thorough), 1-2 levels, 1-2 variables; per-unit sums '
           'of weighted statistics are symbolic reals, per-unit weights '
           'symbolic positive reals, per metric the range in which it is '
           'differentiable',
    assumptions=[
        'JAX is switched to 64 bits (its default is float32): rounding is outside '
        'the claim',
        'the derivative rules of JAX itself are used as they are (jax.make_jaxpr '
        'of jax.jvp of the real function); its primitives are interpreted by symx',
        'square roots are taken of positive means, denominators are positive',
    ],
    stubs=['jax.linearize / jax.vmap / jnp.array of symbolic arrays: jaxpr '
           'interpretation (symx/jaxsym.py)'],
)


class St(mb.Statistic):
  """A statistic whose values are supplied, never computed."""

  def __init__(self, name):
    self._n = name

  @property
  def unique_name(self):
    return self._n

  def compute(self, predictions, targets):
    raise NotImplementedError()


def names(metric):
  return {k: s.unique_name for k, s in metric.statistics.items()}


UNITS = np.array([30, 10, 20, 50])


def per_unit(h, name, shp, axis, lo, hi, dev):
  """Per-unit values as mean (in [lo, hi]) plus deviations in [-dev, dev]."""
  rest = list(shp[:axis]) + list(shp[axis + 1:])
  m = np.expand_dims(h.floats(name, rest, lo=lo, hi=hi), axis)
  n = shp[axis]
  if n == 1:
    return m
  d = h.floats(name + 'd', list(shp[:axis]) + [n - 1] + list(shp[axis + 1:]),
               lo=-dev, hi=dev)
  return np.concatenate([m + d, m - np.sum(d, axis=axis, keepdims=True)],
                        axis=axis)


def make_state(h, metrics, n=2, levels=1, variables=('v',), lo=Fraction(1, 8),
               hi=8, wlevels=False, order=('level', 'unit'), weighted=True,
               tag='', extra=None, signed=(), units=UNITS):
  """Symbolic per-unit AggregationState of the statistics of `metrics`."""
  sws, sw = {}, {}
  un = sorted({u for m in metrics.values() for u in names(m).values()})
  sizes = dict(unit=n, level=levels, **(extra or {}))
  co = dict(unit=units[:n], level=np.arange(levels) * 10)
  for k, u in enumerate(un):
    sws[u], sw[u] = {}, {}
    for v in variables:
      dims = list(order) + list(extra or {})
      shp = [sizes[d] for d in dims]
      neg = any(s in u for s in signed)
      x = per_unit(h, f's{tag}{k}{v}', shp, dims.index('unit'),
                   -hi if neg else lo, hi, 100)
      sws[u][v] = xr.DataArray(x, dims=dims, coords={
          d: co[d] if d in co else np.arange(sizes[d]) for d in dims})
      wd = ['unit', 'level'] if wlevels else ['unit']
      wshp = [sizes[d] for d in wd]
      if weighted:
        w = per_unit(h, f'w{tag}{k}{v}', wshp, 0, 2, 4,
                     Fraction(15, 8) / max(1, n - 1))
      else:
        w = np.ones(wshp)
      sw[u][v] = xr.DataArray(w, dims=wd, coords={d: co[d] for d in wd})
  return aggregation.AggregationState(sws, sw)


def cellmap(da, dims):
  return cells(da.transpose(*dims))


def means(state, u, v, dims):
  """(M, D): weighted mean per cell of dims, and the effect of each unit."""
  x, w = state.sum_weighted_statistics[u][v], state.sum_weights[u][v]
  n = x.sizes['unit']
  xc = cellmap(x, ('unit',) + tuple(dims))
  wc = cells(w.transpose(*[d for d in ('unit',) + tuple(dims) if d in w.dims]))
  wfull = np.empty(xc.shape, dtype=object)
  for i in np.ndindex(*xc.shape):
    j = tuple(q for q, d in zip(i, ('unit',) + tuple(dims)) if d in w.dims)
    wfull[i] = wc[j]
  shp = xc.shape[1:]
  M, D = np.empty(shp, object), np.empty((n,) + shp, object)
  for i in np.ndindex(*shp):
    tw = fsum(wfull[(a,) + i] for a in range(n))
    tx = fsum(xc[(a,) + i] for a in range(n))
    M[i] = f_div(tx, tw)
    for a in range(n):
      # n * (effect of moving the sums of unit a from their mean)
      D[(a,) + i] = f_div(
          f_mul(lift_f(n), f_sub(xc[(a,) + i], f_mul(M[i], wfull[(a,) + i]))), tw)
  return M, D


def sq(x):
  return core.f_sqrt(x)


def lin(*terms):
  """value and partials of sum coef*stat."""
  def f(m):
    return (fsum(f_mul(lift_f(c), m[k]) for k, c in terms),
            {k: lift_f(c) for k, c in terms})
  return f


def ratio(num, den):
  """(sum num)/(sum den), each a dict stat -> coefficient."""
  def f(m):
    a = fsum(f_mul(lift_f(c), m[k]) for k, c in num.items())
    b = fsum(f_mul(lift_f(c), m[k]) for k, c in den.items())
    v = f_div(a, b)
    p = {}
    for k in set(num) | set(den):
      p[k] = f_div(f_sub(lift_f(num.get(k, 0)), f_mul(v, lift_f(den.get(k, 0)))), b)
    return v, p
  return f


def f_rmse(k):
  def f(m):
    r = sq(m[k])
    return r, {k: f_div(ONE, f_mul(lift_f(2), r))}
  return f


def f_acc(m):
  c, p, t = m['AnomalyCovariance'], m['SquaredPredictionAnomaly'], m['SquaredTargetAnomaly']
  den = f_mul(sq(p), sq(t))
  v = f_div(c, den)
  half = lift_f(Fraction(-1, 2))
  return v, dict(AnomalyCovariance=f_div(ONE, den),
                 SquaredPredictionAnomaly=f_div(f_mul(half, v), p),
                 SquaredTargetAnomaly=f_div(f_mul(half, v), t))


def f_ssr(m):
  a, b = m['EnsembleVariance'], m['UnbiasedEnsembleMeanSquaredError']
  v = sq(f_div(a, b))
  half = lift_f(Fraction(1, 2))
  return v, dict(EnsembleVariance=f_div(f_mul(half, v), a),
                 UnbiasedEnsembleMeanSquaredError=f_div(f_mul(lift_f(Fraction(-1, 2)), v), b))


def f_hss(m):
  tp, tn, fp, fn = (m[k] for k in CM)
  N = f_mul(lift_f(2), f_sub(f_mul(tp, tn), f_mul(fp, fn)))
  D = f_add(f_mul(f_add(tp, fn), f_add(fn, tn)), f_mul(f_add(tp, fp), f_add(fp, tn)))
  v = f_div(N, D)
  two = lift_f(2)
  dN = [f_mul(two, tn), f_mul(two, tp), f_mul(lift_f(-2), fn), f_mul(lift_f(-2), fp)]
  dD = [f_add(f_add(fn, tn), f_add(fp, tn)), f_add(f_add(tp, fn), f_add(tp, fp)),
        f_add(f_add(fp, tn), f_add(tp, fp)), f_add(f_add(fn, tn), f_add(tp, fn))]
  return v, {k: f_div(f_sub(a, f_mul(v, b)), D) for k, a, b in zip(CM, dN, dD)}


def f_ets(m):
  tp, tn, fp, fn = (m[k] for k in CM)
  s = fsum([tp, tn, fp, fn])
  r = f_div(f_mul(f_add(tp, fp), f_add(tp, fn)), s)
  N, D = f_sub(tp, r), f_sub(fsum([tp, fp, fn]), r)
  v = f_div(N, D)
  a, b = f_add(tp, fp), f_add(tp, fn)
  dr = [f_div(f_sub(f_add(a, b), r), s), f_div(f_sub(ZERO, r), s),
        f_div(f_sub(b, r), s), f_div(f_sub(a, r), s)]
  p = {}
  for k, d, n1, d1 in zip(CM, dr, (1, 0, 0, 0), (1, 0, 1, 1)):
    p[k] = f_div(f_sub(f_sub(lift_f(n1), d), f_mul(v, f_sub(lift_f(d1), d))), D)
  return v, p


CM = ('TruePositives', 'TrueNegatives', 'FalsePositives', 'FalseNegatives')
TP, TN, FP, FN = CM


def f_fss(m):
  v, p = ratio({'SquaredFractionsError': 1},
               {'SquaredPredictionFraction': 1, 'SquaredTargetFraction': 1})(m)
  return f_sub(ONE, v), {k: core.f_neg(x) for k, x in p.items()}


def f_prod(*facs):
  """product of (a + b*stat)"""
  def f(m):
    xs = [f_add(lift_f(a), f_mul(lift_f(b), m[k])) for a, b, k in facs]
    def prod(ys):
      r = ONE
      for y in ys:
        r = f_mul(r, y)
      return r
    return prod(xs), {k: f_mul(lift_f(b), prod(xs[:i] + xs[i + 1:]))
                      for i, (a, b, k) in enumerate(facs)}
  return f


def f_one(m):
  (k, v), = m.items()
  return v, {k: ONE}


CLIM = xr.Dataset()


class ProdPlusRatio(mb.PerVariableMetric):
  """A user-defined nonlinear metric of three statistics."""

  @property
  def statistics(self):
    return {k: St('user_' + k) for k in 'abc'}

  def _values_from_mean_statistics_per_variable(self, s):
    return s['a'] * s['b'] + s['c'] / s['b']


def f_user(m):
  a, b, c = m['a'], m['b'], m['c']
  return (f_add(f_mul(a, b), f_div(c, b)),
          dict(a=b, b=f_sub(a, f_div(c, f_mul(b, b))), c=f_div(ONE, b)))


def METRICS():
  return {
      'RMSE': (det.RMSE(), f_rmse('SquaredError')),
      'MSE': (det.SquaredError(), f_one),
      'bias': (det.Error(), f_one),
      'MAE': (det.AbsoluteError(), f_one),
      'ACC': (det.ACC(CLIM), f_acc),
      'activity': (det.PredictionActivity(CLIM), f_rmse('SquaredPredictionAnomaly')),
      'CSI': (cat.CSI(), ratio({TP: 1}, {TP: 1, FP: 1, FN: 1})),
      'accuracy': (cat.Accuracy(), ratio({TP: 1, TN: 1}, {k: 1 for k in CM})),
      'recall': (cat.Recall(), ratio({TP: 1}, {TP: 1, FN: 1})),
      'FAR': (cat.FalseAlarmRate(), ratio({FP: 1}, {TP: 1, FP: 1})),
      'precision': (cat.Precision(), ratio({TP: 1}, {TP: 1, FP: 1})),
      'F1': (cat.F1Score(), ratio({TP: 2}, {TP: 2, FP: 1, FN: 1})),
      'FB': (cat.FrequencyBias(), ratio({TP: 1, FP: 1}, {TP: 1, FN: 1})),
      'HSS': (cat.HSS(), f_hss),
      'ETS': (cat.ETS(), f_ets),
      'reliability': (cat.Reliability(), ratio({TP: 1}, {TP: 1, FP: 1})),
      'CRPS': (prob.CRPSEnsemble(), lin(('CRPSSkill', 1), ('CRPSSpread', Fraction(-1, 2)))),
      'CRPSdist': (prob.CRPSEnsembleDistance(), lin(
          ('CRPSSkill', 1), ('CRPSSpread', Fraction(-1, 2)),
          ('CRPSTargetSpread', Fraction(-1, 2)))),
      'URMSE': (prob.UnbiasedEnsembleMeanRMSE(), f_rmse('UnbiasedEnsembleMeanSquaredError')),
      'SSR': (prob.UnbiasedSpreadSkillRatio(), f_ssr),
      'ERV': (prob.EnsembleRootMeanVariance(), f_rmse('EnsembleVariance')),
      'FSS': (spatial.FSS(3), f_fss),
      'ensRMSE': (prob.EnsembleAveragedMetric(det.RMSE()), f_rmse('SquaredError')),
      'opportunism': (cat.Opportunism('number', CLIM, True, True, False),
                      f_prod((0, 1, 'Confident'), (0, 1, 'Covered'),
                             (1, -1, 'JaccardDistant'))),
      'user': (ProdPlusRatio(), f_user),
  }


SIGNED = {'bias': ('Error',), 'ACC': ('AnomalyCovariance',)}


def expected(state, metric, fn, v, dims):
  nm = names(metric)
  ms = {k: means(state, u, v, dims) for k, u in nm.items()}
  shp = next(iter(ms.values()))[0].shape
  n = next(iter(ms.values()))[1].shape[0]
  val, tan = np.empty(shp, object), np.empty((n,) + shp, object)
  for i in np.ndindex(*shp):
    val[i], part = fn({k: m[0][i] for k, m in ms.items()})
    for a in range(n):
      tan[(a,) + i] = fsum(f_mul(part[k], ms[k][1][(a,) + i]) for k in part)
  return val, tan


def run(state, metrics):
  return autodiff.per_unit_values_linearized_around_mean_statistics(
      metrics, state, 'unit')


def claims(h, label, state, value, tangents, metric, fn, v, dims, n,
           units=UNITS):
  val, tan = expected(state, metric, fn, v, dims)
  h.true(f'{label}: dims', set(value.dims) == set(dims)
         and set(tangents.dims) == set(dims) | {'unit'})
  h.eq(f'{label}: value is the metric', value.transpose(*dims), val)
  h.eq(f'{label}: per-unit first-order effect',
       tangents.transpose('unit', *dims), tan)
  h.true(f'{label}: unit labels',
         list(tangents.coords['unit'].values) == list(units[:n]))
  tc = cellmap(tangents, ('unit',) + tuple(dims))
  tot = objarr(tan.shape[1:], lambda *i: fsum(tc[(a,) + i] for a in range(n)))
  h.eq(f'{label}: mean zero', wrapcells(tot),
       objarr(tan.shape[1:], lambda *i: f_ite(val[i].nan, NAN, ZERO)))


def one(name, n=2, levels=1, **kw):
  def fn(h):
    metric, f = METRICS()[name]
    st = make_state(h, {name: metric}, n=n, levels=levels,
                    signed=SIGNED.get(name, ()), **kw)
    val, tan = run(st, {name: metric})
    claims(h, name, st, val[name]['v'], tan[name]['v'], metric, f, 'v',
           ('level',), n)
  return fn


for _n in METRICS():
  SPEC.add(f'metric {_n}', one(_n, n=2), cost=3)


# --- linear metrics: value + per-unit effect is the per-unit statistic

def linear(name, order):
  def fn(h):
    metric, f = METRICS()[name]
    st = make_state(h, {name: metric}, n=3, levels=2, order=order,
                    weighted=False, signed=('Error', 'CRPS'))
    val, tan = run(st, {name: metric})
    full = (val[name]['v'] + tan[name]['v']).transpose('unit', 'level')
    nm = names(metric)
    xs = {k: cellmap(st.sum_weighted_statistics[u]['v'], ('unit', 'level'))
          for k, u in nm.items()}
    want = objarr((3, 2), lambda *i: f({k: x[i] for k, x in xs.items()})[0])
    h.eq('linear metric: per-unit values are the per-unit statistics', full, want)
    h.true('level labels', list(full.level.values) == [0, 10])
  return fn


SPEC.add('linear MSE', linear('MSE', ('level', 'unit')))
SPEC.add('linear bias', linear('bias', ('unit', 'level')))
SPEC.add('linear CRPS', linear('CRPS', ('unit', 'level')))
SPEC.add('linear CRPS distance', linear('CRPSdist', ('level', 'unit')))


# --- layout: several metrics, variables, dimension orders, weight shapes

def layout(order, wlevels, n, units=UNITS):
  def fn(h):
    M = {k: METRICS()[k] for k in ('RMSE', 'MSE', 'precision', 'recall')}
    metrics = {k: m[0] for k, m in M.items()}
    st = make_state(h, metrics, n=n, levels=2, variables=('v', 'q'),
                    order=order, wlevels=wlevels, units=units)
    # the second variable is stored with its dimensions the other way round
    for u in list(st.sum_weighted_statistics):
      st.sum_weighted_statistics[u]['q'] = (
          st.sum_weighted_statistics[u]['q'].transpose(*order[::-1]))
    val, tan = run(st, metrics)
    h.true('metrics', set(val) == set(metrics) and set(tan) == set(metrics))
    for k, (m, f) in M.items():
      h.true('variables', set(val[k]) == {'v', 'q'} and set(tan[k]) == {'v', 'q'})
      for v in ('v', 'q'):
        claims(h, f'{k}.{v}', st, val[k][v], tan[k][v], m, f, v, ('level',), n,
               units)
        h.true('level labels', list(tan[k][v].level.values) == [0, 10])
  return fn


DATES = np.array(['2020-03-01', '2020-01-01', '2020-01-02', '2020-05-05'],
                 dtype='datetime64[ns]')
SPEC.add('layout unit last', layout(('level', 'unit'), False, 2), cost=4)
SPEC.add('layout unit first', layout(('unit', 'level'), True, 2, DATES), cost=4)
SPEC.add('layout 3 units', layout(('unit', 'level'), False, 3), cost=5)
SPEC.add('layout 4 units', layout(('unit', 'level'), True, 4),
         thorough_only=True, cost=9)


def no_other_dims(h):
  metric, f = METRICS()['user']
  st = make_state(h, {'m': metric}, n=3, levels=1)
  st = st.map(lambda x: x.squeeze(drop=True))
  val, tan = run(st, {'m': metric})
  claims(h, 'user', st, val['m']['v'], tan['m']['v'], metric, f, 'v', (), 3)


SPEC.add('no other dimensions', no_other_dims)


# --- only the statistics of the requested metrics matter

def subset_metrics(h):
  M = METRICS()
  allm = {k: M[k][0] for k in ('RMSE', 'CSI')}
  st = make_state(h, allm, n=2, levels=1)
  val, tan = run(st, {'CSI': M['CSI'][0]})
  h.true('metrics', set(val) == {'CSI'} and set(tan) == {'CSI'})
  claims(h, 'CSI', st, val['CSI']['v'], tan['CSI']['v'], *M['CSI'], 'v',
         ('level',), 2)


SPEC.add('extra statistics', subset_metrics)


# --- comparison with a baseline

def baseline(name):
  def fn(h):
    metric, f = METRICS()[name]
    a = make_state(h, {name: metric}, n=2, levels=2, tag='a')
    b = make_state(h, {name: metric}, n=2, levels=2, tag='b')
    st = bc.combine_aggregation_states(a, b)
    ms = bc.for_metrics({name: metric})
    val, tan = run(st, ms)
    va, ta = expected(a, metric, f, 'v', ('level',))
    vb, tb = expected(b, metric, f, 'v', ('level',))
    sub = np.vectorize(f_sub, otypes=[object])
    h.eq('difference of the metrics', val[name]['v'], sub(va, vb))
    h.eq('difference of the effects', tan[name]['v'].transpose('unit', 'level'),
         sub(ta, tb))
  return fn


for _n in ('RMSE', 'MSE', 'precision'):
  SPEC.add(f'baseline {_n}', baseline(_n))


# --- relative economic value, at all thresholds and at the optimal ones

REV_C = [Fraction(1, 16), Fraction(1, 12)]


def rev(optimal):
  def fn(h):
    kw = {}
    if optimal:
      kw['optimal_thresholds'] = xr.DataArray(
          [0.75, 0.25], dims=['cost_loss_ratio'],
          coords=dict(cost_loss_ratio=[float(c) for c in REV_C]))
    metric = prob.RelativeEconomicValue(
        cost_loss_ratios=np.array([float(c) for c in REV_C]), ensemble_size=2,
        **kw)
    st = make_state(h, {'m': metric}, n=2, levels=1, lo=Fraction(1, 2), hi=1,
                    extra=dict(threshold=2))
    st = st.map(lambda x: x.assign_coords(threshold=[0.25, 0.75])
                if 'threshold' in x.dims else x)
    val, tan = run(st, {'m': metric})
    nm = names(metric)
    dims = ('level', 'threshold')
    ms = {k: means(st, nm[k], 'v', dims) for k in (TP, FP, FN)}
    ths = [0., .25, .75, 1.]
    pick = [2, 1] if optimal else None
    out_t = 1 if optimal else 4
    shp = (1, 2, out_t)
    V, T = np.empty(shp, object), np.empty((2,) + shp, object)

    def stat(t, unit=None):
      # mean (or effect) of tp, fp, fn at threshold number t of ths
      g = lambda k, j: ms[k][0][0, j] if unit is None else ms[k][1][unit, 0, j]
      br = f_add(g(TP, 0), g(FN, 0))
      one = ONE if unit is None else ZERO
      if t == 0:
        return br, f_sub(one, br), ZERO
      if t == 3:
        return ZERO, ZERO, br
      return g(TP, t - 1), g(FP, t - 1), g(FN, t - 1)
    for ci, c0 in enumerate(REV_C):
      c = lift_f(float(c0))
      for j in range(out_t):
        t = pick[ci] if optimal else j
        tp, fp, fn_ = stat(t)
        # the base rate exceeds both cost/loss ratios within the bounds
        num = f_sub(c, f_add(f_mul(c, f_add(tp, fp)), fn_))
        den = f_sub(c, f_mul(c, f_add(tp, fn_)))
        V[0, ci, j] = f_div(num, den)
        for a in range(2):
          dtp, dfp, dfn = stat(t, a)
          dnum = core.f_neg(f_add(f_mul(c, f_add(dtp, dfp)), dfn))
          dden = core.f_neg(f_mul(c, f_add(dtp, dfn)))
          T[a, 0, ci, j] = f_div(f_sub(dnum, f_mul(V[0, ci, j], dden)), den)
    od = ('level', 'cost_loss_ratio') + (() if optimal else ('threshold',))
    v, t = val['m']['v'], tan['m']['v']
    h.true('dims', set(v.dims) == set(od) and set(t.dims) == set(od) | {'unit'})
    if optimal:
      V, T = V[..., 0], T[..., 0]
    else:
      h.true('thresholds', list(v.threshold.values) == ths)
    # perfect cost equal to climatological cost: no value is defined
    z = np.vectorize(lambda x: b_or(x.nan, x.pinf, x.ninf), otypes=[object])(V)
    h.eq('value', v.transpose(*od), V, unless=z)
    h.eq('effect', t.transpose('unit', *od), T, unless=np.stack([z, z]))
  return fn


SPEC.add('REV all thresholds', rev(False), cost=4)
SPEC.add('REV optimal thresholds', rev(True), cost=4)


# --- SEDI: logarithms of rates (inside the clipping limits)

def sedi(h):
  metric = cat.SEDI()
  st = make_state(h, {'m': metric}, n=2, levels=1, weighted=False,
                  lo=1, hi=Fraction(6, 5))
  val, tan = run(st, {'m': metric})
  nm = names(metric)
  ms = {k: means(st, nm[k], 'v', ('level',)) for k in CM}
  m = {k: ms[k][0][0] for k in CM}
  H = f_div(m[TP], f_add(m[TP], m[FN]))
  FF = f_div(m[FP], f_add(m[FP], m[TN]))
  L = lambda x: core.f_uf('log', x)
  lh, lf, l1h, l1f = L(H), L(FF), L(f_sub(ONE, H)), L(f_sub(ONE, FF))
  N = f_sub(f_add(f_sub(lf, lh), l1h), l1f)
  D = fsum([lh, lf, l1h, l1f])
  V = f_div(N, D)
  inv = lambda x: f_div(ONE, x)
  T = []
  for a in range(2):
    d = {k: ms[k][1][a, 0] for k in CM}
    sH, sF = f_add(m[TP], m[FN]), f_add(m[FP], m[TN])
    dH = f_div(f_sub(d[TP], f_mul(H, f_add(d[TP], d[FN]))), sH)
    dF = f_div(f_sub(d[FP], f_mul(FF, f_add(d[FP], d[TN]))), sF)
    i1H, i1F = inv(f_sub(ONE, H)), inv(f_sub(ONE, FF))
    dN = fsum([f_mul(dF, f_add(inv(FF), i1F)),
               core.f_neg(f_mul(dH, f_add(inv(H), i1H)))])
    dD = fsum([f_mul(dH, f_sub(inv(H), i1H)), f_mul(dF, f_sub(inv(FF), i1F))])
    T.append(f_div(f_sub(dN, f_mul(V, dD)), D))
  ok = b_not(f_eq(D, ZERO))
  h.assume(ok)
  h.eq('value', val['m']['v'], np.array([V], dtype=object))
  h.eq('effect', tan['m']['v'].transpose('unit', 'level'),
       np.array(T, dtype=object).reshape(2, 1))


SPEC.add('metric SEDI', sedi, cost=5)


# --- a missing unit makes the result missing, it is not dropped

def missing(name):
  def fn(h):
    metric, f = METRICS()[name]
    st = make_state(h, {name: metric}, n=2, levels=2)
    nm = sorted(names(metric).values())[0]
    gone = h.bools('gone', (2, 2))
    x = st.sum_weighted_statistics[nm]['v']
    st.sum_weighted_statistics[nm]['v'] = x.where(
        ~xr.DataArray(gone, dims=['level', 'unit']))
    val, tan = run(st, {name: metric})
    claims(h, name, st, val[name]['v'], tan[name]['v'], metric, f, 'v',
           ('level',), 2)
  return fn


for _n in ('MSE', 'RMSE', 'precision'):
  SPEC.add(f'missing {_n}', missing(_n))


# --- units must be the same for every statistic

def units_checked(h):
  metric, _ = METRICS()['precision']
  bad = h.choice('bad', ['values', 'size', 'missing', 'order', '2d', 'nondim'])
  st = make_state(h, {'m': metric}, n=2, levels=1)
  u = names(metric)[FP]
  x, w = st.sum_weighted_statistics[u]['v'], st.sum_weights[u]['v']
  if bad == 'values':
    f = lambda d: d.assign_coords(unit=[30, 11])
  elif bad == 'size':
    f = lambda d: d.isel(unit=[0])
  elif bad == 'missing':
    f = lambda d: d.drop_vars('unit')
  elif bad == 'order':
    f = lambda d: d.isel(unit=[1, 0])
  elif bad == '2d':
    f = lambda d: d.rename(unit='i').drop_vars('i').expand_dims(j=1).assign_coords(
        unit=(('i', 'j'), np.array([[30], [10]])))
  else:
    f = lambda d: d.rename(unit='i').drop_vars('i').assign_coords(
        unit=('i', np.array([30, 10])))
  st.sum_weighted_statistics[u]['v'] = f(x)
  st.sum_weights[u]['v'] = f(w)
  with h.raises(f'{bad} units rejected', ValueError):
    run(st, {'m': metric})
  with h.raises('unknown unit dimension rejected', ValueError):
    autodiff.per_unit_values_linearized_around_mean_statistics(
        {'m': metric}, make_state(h, {'m': metric}, n=2, tag='z'), 'init_time')


SPEC.add('units checked', units_checked)
