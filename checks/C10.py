"""C10: contingency scores equal their definitions for every table."""
from checks.common import *
from weatherbenchX import aggregation, weighting
from weatherbenchX.metrics import base, categorical as C

SPEC = Spec(
    'C10',
    functions=['metrics.categorical.TruePositives/TrueNegatives/FalsePositives/FalseNegatives',
               'metrics.categorical.CSI/Accuracy/Recall/FalseAlarmRate/Precision/'
               'F1Score/FrequencyBias/HSS/ETS/SEDI',
               'aggregation.Aggregator.aggregate_statistics', 'AggregationState.metric_values'],
    bounds='per-cell classification: 2x2 cells, each value 0, 1 or NaN (or bool '
           'or int, or any non-zero number for true); scores: every table of four '
           'non-negative reals or NaN, and every table from 4 weighted forecast/'
           'observation pairs; natural logarithm uninterpreted (SEDI)',
    assumptions=['undefined scores (0/0) are NaN'])

KINDS = ['float', 'bool', 'int', 'mixed', 'magnitude']


def binary(h, name, shape, kind, nan=True):
  b = h.bools(name, shape)
  if kind == 'bool':
    return b, cells(b), objarr(shape, lambda *i: False)
  if kind == 'int':
    return b.astype(int), cells(b), objarr(shape, lambda *i: False)
  n = h.bools(name + '_nan', shape) if nan else None
  v = b.astype(float)
  if kind == 'magnitude':          # any non-zero number counts as true
    m = h.floats(name + '_mag', shape)
    h.assume(m != 0)
    v = v * m
  if n is not None:
    v = np.where(n, np.nan, v)
  return v, cells(b), (cells(n) if n is not None else objarr(shape, lambda *i: False))


STATS = {'TruePositives': (C.TruePositives, True, True), 'FalsePositives': (C.FalsePositives, True, False),
         'FalseNegatives': (C.FalseNegatives, False, True), 'TrueNegatives': (C.TrueNegatives, False, False)}


def da(v, name='u', swap=False):
  d = xr.DataArray(v, dims=('latitude', 'longitude'), coords={'latitude': [0., 10.], 'longitude': [5., 6.]}, name=name)
  return d.transpose() if swap else d


@SPEC.harness('classification')
def h_class(h):
  kind = h.choice('kind', KINDS)
  k1, k2 = ('float', 'bool') if kind == 'mixed' else (kind, kind)
  pv, pb, pn = binary(h, 'p', (2, 2), k1)
  tv, tb, tn = binary(h, 't', (2, 2), k2)
  p, t = {'u': da(pv)}, {'u': da(tv, swap=h.choice('transposed', [False, True]))}
  got = {}
  for nm, (cls, wp, wt) in STATS.items():
    g = cls().compute(p, t)['u'].transpose('latitude', 'longitude')
    got[nm] = cells(g.data)
    def f(*i):
      hit = b_and(pb[i] if wp else b_not(pb[i]), tb[i] if wt else b_not(tb[i]))
      return f_ite(b_or(pn[i], tn[i]), NAN, fb(hit))
    h.eq(nm, g, wrapcells(objarr((2, 2), f)))
    # swapping the roles swaps false alarms and misses only
    other = {'FalsePositives': 'FalseNegatives', 'FalseNegatives': 'FalsePositives'}.get(nm, nm)
    s = STATS[other][0]().compute(t, p)['u'].transpose('latitude', 'longitude')
    h.eq(f'{nm} swapped', s, g)
  tot = objarr((2, 2), lambda *i: fsum(got[n][i] for n in STATS))
  h.eq('exactly one', wrapcells(tot), wrapcells(objarr(
      (2, 2), lambda *i: f_ite(b_or(pn[i], tn[i]), NAN, ONE))))


def f3(a, b, c): return f_add(f_add(a, b), c)


def formulas(tp, fp, fn, tn):
  """Textbook scores of a table (numerators and denominators)."""
  n = f_add(f3(tp, fp, fn), tn)
  m = f_mul
  rnd = lambda: f_div(m(f_add(tp, fp), f_add(tp, fn)), n)
  two = lift_f(2)
  return {
      'CSI': lambda: f_div(tp, f3(tp, fp, fn)),
      'Accuracy': lambda: f_div(f_add(tp, tn), n),
      'Recall': lambda: f_div(tp, f_add(tp, fn)),
      'Precision': lambda: f_div(tp, f_add(tp, fp)),
      'FalseAlarmRate': lambda: f_div(fp, f_add(tp, fp)),
      'F1Score': lambda: f_div(m(two, tp), f3(m(two, tp), fp, fn)),
      'FrequencyBias': lambda: f_div(f_add(tp, fp), f_add(tp, fn)),
      'HSS': lambda: f_div(m(two, f_sub(m(tp, tn), m(fp, fn))),
                           f_add(m(f_add(tp, fn), f_add(fn, tn)), m(f_add(tp, fp), f_add(fp, tn)))),
      'ETS': lambda: f_div(f_sub(tp, rnd()), f_sub(f3(tp, fp, fn), rnd())),
  }


NAMES = ['CSI', 'Accuracy', 'Recall', 'Precision', 'FalseAlarmRate', 'F1Score', 'FrequencyBias', 'HSS', 'ETS', 'SEDI']
RANGE = {'CSI': (0, 1), 'Accuracy': (0, 1), 'Recall': (0, 1), 'Precision': (0, 1), 'FalseAlarmRate': (0, 1),
         'F1Score': (0, 1), 'FrequencyBias': (0, None), 'HSS': (-1, 1), 'ETS': (Fraction(-1, 3), 1)}


def sedi(tp, fp, fn, tn):
  lo, hi = lift_f(1e-6), lift_f(1 - 1e-6)
  clip = lambda x: f_ite(x.nan, NAN, f_ite(f_lt(x, lo), lo, f_ite(f_lt(hi, x), hi, x)))
  H, Fr = clip(f_div(tp, f_add(tp, fn))), clip(f_div(fp, f_add(fp, tn)))
  ln = lambda x: core.f_uf('log', x)
  lf, lh, l1h, l1f = ln(Fr), ln(H), ln(f_sub(ONE, H)), ln(f_sub(ONE, Fr))
  return f_div(f_sub(f_add(f_sub(lf, lh), l1h), l1f), f_add(f_add(f_add(lh, lf), l1h), l1f))


def table(h, name, nan):
  """The scores as functions of any averaged table."""
  v = h.floats('table', (4,), lo=0, hi=1, nan=nan)
  nd = h.choice('dimensions', [0, 1, 2])
  def mk(i):
    d = xr.DataArray(v[i:i + 1], dims='lead_time', coords={'lead_time': [6]})
    return {'u': [d.isel(lead_time=0, drop=True), d, d.expand_dims(region=['x'])][nd]}
  stats = dict(zip(['TruePositives', 'FalsePositives', 'FalseNegatives', 'TrueNegatives'], map(mk, range(4))))
  m = getattr(C, name)()
  h.true('statistics', all(type(s).__name__ in STATS and s.unique_name == type(s).__name__ and k == s.unique_name
                           for k, s in m.statistics.items()))
  r = m.values_from_mean_statistics({k: stats[k] for k in m.statistics})
  h.true('variables', set(r) == {'u'})
  c = cells(v)
  if name == 'SEDI':
    want = sedi(*c)
  else:
    want = formulas(*c)[name]()
  shape = [(), (1,), (1, 1)][nd]
  h.eq('formula', r['u'].transpose(*['region', 'lead_time'][2 - nd:]), wrapcells(objarr(shape, lambda *_: want)))
  if name in RANGE and not nan:
    x = cells(r['u'].data).ravel()[0]
    lo, hi = RANGE[name]
    eps = lift_f(1e-9)
    h.check('lower bound', b_or(x.nan, f_le(lift_f(lo), f_add(x, eps))))
    if hi is not None:
      h.check('upper bound', b_or(x.nan, f_le(x, f_add(lift_f(hi), eps))))


for nm in NAMES:
  for nan in (False, True):
    SPEC.add(f'{nm} of a table[nan={nan}]', (lambda n, k: lambda h: table(h, n, k))(nm, nan))


class W(weighting.Weighting):
  def __init__(self, w): self.w = w
  def weights(self, statistic): return self.w


@SPEC.harness('scores of weighted pairs', cost=3)
def h_pairs(h):
  """End to end: pairs, area weights, all scores evaluated together."""
  use_w = h.choice('weights', [False, True])
  pv, pb, pn = binary(h, 'p', (2, 2), 'float', nan=False)
  tv, tb, tn_ = binary(h, 't', (2, 2), 'bool')
  w = [ONE, ONE]
  weigh = None
  if use_w:
    ws = h.floats('w', (2,), lo=0.5, hi=2)
    w = cells(ws)
    weigh = [W(xr.DataArray(ws, dims='latitude'))]
  ms = {n: getattr(C, n)() for n in NAMES}
  r = aggregation.compute_metric_values_for_single_chunk(
      ms, aggregation.Aggregator(reduce_dims=['latitude', 'longitude'], weigh_by=weigh),
      {'u': da(pv)}, {'u': da(tv)})
  h.true('metrics', set(r) == {f'{n}.u' for n in NAMES})
  idx = [(i, j) for i in range(2) for j in range(2)]
  tot = f_mul(lift_f(2), f_add(w[0], w[1]))
  def avg(wp, wt):
    return f_div(fsum(f_mul(fb(b_and(pb[i] if wp else b_not(pb[i]), tb[i] if wt else b_not(tb[i]))), w[i[0]])
                      for i in idx), tot)
  tab = avg(True, True), avg(True, False), avg(False, True), avg(False, False)
  fs = formulas(*tab)
  for n in ('CSI', 'Accuracy', 'Recall', 'Precision', 'FalseAlarmRate', 'F1Score', 'FrequencyBias'):
    h.eq(n, r[f'{n}.u'], wrapcells(fs[n]()))
