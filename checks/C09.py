"""C09: deterministic scores equal their definitions and bounds."""
from checks.common import *
import datetime
from weatherbenchX import aggregation, weighting
from weatherbenchX.metrics import base, deterministic as D

SPEC = Spec(
    'C09',
    functions=['metrics.deterministic.*', 'metrics.base.PerVariableStatistic.compute',
               'metrics.base.PerVariableStatisticWithClimatology.compute/_compute_per_variable',
               'metrics.base.PerVariableMetric.values_from_mean_statistics',
               'aggregation.compute_metric_values_for_single_chunk'],
    bounds='fields of up to 2x3 cells, every value any real or NaN; thresholds '
           'symbolic (with NaN); climatologies by time, dayofyear, and '
           'dayofyear+hour with up to 20 entries, initialisation times symbolic '
           'in four-day windows around 29 February (leap and common year), new '
           'year and mid-year, at 6 h steps, two leads; inequalities proved for '
           'up to 3 cells (ACC: 2 cells)',
    assumptions=['the climatology has an entry for every valid time (a missing '
                 'entry is an error, checked separately)'])


def fields(h, names=('u', 'v'), shape=(2, 2), nan=True, order=True, tag=''):
  dims = ('latitude', 'longitude')
  co = {'latitude': np.arange(shape[0]) * 10., 'longitude': np.arange(shape[1]) * 20.}
  p, t = {}, {}
  for v in names:
    a, b = h.floats(f'p{tag}_{v}', shape, nan=nan), h.floats(f't{tag}_{v}', shape, nan=nan)
    p[v] = xr.DataArray(a, dims=dims, coords=co, name=v)
    t[v] = xr.DataArray(b, dims=dims, coords=co, name=v)
  return p, t


def each(h, label, got, p, t, fn, dims=('latitude', 'longitude')):
  for v in p:
    a, b = cells(p[v].data), cells(t[v].data)
    h.true(f'{label} dims', set(got[v].dims) == set(dims), str(got[v].dims))
    h.eq(f'{label}.{v}', got[v].transpose(*dims),
         wrapcells(objarr(a.shape, lambda *i: fn(a[i], b[i]))))


@SPEC.harness('error statistics per cell')
def h_cells(h):
  p, t = fields(h)
  as_ds = h.choice('form', ['dict', 'dataset', 'transposed'])
  P, T = p, t
  if as_ds == 'dataset':
    P, T = xr.Dataset(p), xr.Dataset(t)
  elif as_ds == 'transposed':
    T = {k: x.transpose('longitude', 'latitude') for k, x in t.items()}
  err = f_sub
  ab = lambda a, b: core.f_abs(f_sub(a, b))
  sq = lambda a, b: f_mul(f_sub(a, b), f_sub(a, b))
  nanif = lambda x, c: f_ite(c.nan, NAN, x)
  each(h, 'Error', D.Error().compute(P, T), p, t, err)
  each(h, 'Bias', D.Bias().compute(P, T), p, t, err)
  each(h, 'AbsoluteError', D.AbsoluteError().compute(P, T), p, t, ab)
  each(h, 'MAE', D.MAE().compute(P, T), p, t, ab)
  each(h, 'SquaredError', D.SquaredError().compute(P, T), p, t, sq)
  each(h, 'MSE', D.MSE().compute(P, T), p, t, sq)
  # passthroughs: the value itself; NaNs of the other side are copied on demand
  # (without it, a NaN on the other side is unspecified here)
  ident = lambda a, b: a
  other = lambda a, b: b
  pp = D.PredictionPassthrough().compute(P, T)
  tp = D.TargetPassthrough().compute(P, T)
  each(h, 'PredictionPassthrough', pp, p, t, ident)
  each(h, 'TargetPassthrough', tp, p, t, other)
  pc = D.PredictionPassthrough(copy_nans_from_targets=True).compute(P, T)
  tc = D.TargetPassthrough(copy_nans_from_predictions=True).compute(P, T)
  each(h, 'PredictionPassthrough copy', pc, p, t, lambda a, b: nanif(a, b))
  each(h, 'TargetPassthrough copy', tc, p, t, lambda a, b: nanif(b, a))


@SPEC.harness('wind vector')
def h_wind(h):
  p, t = fields(h, ('u', 'v', 'u10', 'v10'), (2, 1))
  s = D.WindVectorSquaredError(['u', 'u10'], ['v', 'v10'], ['wind', 'wind10']).compute(p, t)
  h.true('variables', set(s) == {'wind', 'wind10'})
  for out, (a, b) in {'wind': ('u', 'v'), 'wind10': ('u10', 'v10')}.items():
    c = {k: (cells(p[k].data), cells(t[k].data)) for k in (a, b)}
    def f(*i):
      d = [f_sub(c[k][0][i], c[k][1][i]) for k in (a, b)]
      return f_add(f_mul(d[0], d[0]), f_mul(d[1], d[1]))
    h.eq(out, s[out], wrapcells(objarr((2, 1), f)))
  agg = aggregation.Aggregator(reduce_dims=['latitude', 'longitude'])
  form = h.choice('form', ['str', 'list'])
  m = (D.WindVectorRMSE('u10', 'v10', 'w') if form == 'str' else
       D.WindVectorRMSE(['u', 'u10'], ['v', 'v10'], ['wind', 'w']))
  r = aggregation.compute_metric_values_for_single_chunk({'m': m}, agg, p, t)
  x = cells(s['wind10'].data).ravel()
  h.eq('WindVectorRMSE', r['m.w'], wrapcells(core.f_sqrt(f_div(fsum(x), lift_f(2)))))
  h.true('metric variables', set(r) == ({'m.w'} if form == 'str' else {'m.w', 'm.wind'}))
  with h.raises('lengths must agree', ValueError):
    D.WindVectorRMSE(['u'], ['v', 'v10'], ['w'])


@SPEC.harness('error exceedance')
def h_exc(h):
  p, t = fields(h, ('u', 'v'), (2, 1))
  n = 2
  th = h.floats('th', (n,), nan=True)
  th2 = h.floats('th2', (n,), nan=True)
  kind = h.choice('kind', ['array', 'dataset', 'gridded', 'list'])
  lst = [0.5, 1.5]
  if kind == 'array':
    m = D.ErrorExceedance(xr.DataArray(th, dims='q', coords={'q': [10, 20]}))
    d, lim = 'q', lambda v, i, k: cells(th)[k]
  elif kind == 'dataset':
    m = D.ErrorExceedance(xr.Dataset({
        'u': xr.DataArray(th, dims='q'), 'v': xr.DataArray(th2, dims='q')}))
    d, lim = 'q', lambda v, i, k: cells(th if v == 'u' else th2)[k]
  elif kind == 'gridded':
    g = h.floats('thg', (2, n), nan=True)
    m = D.ErrorExceedance(xr.DataArray(g, dims=('latitude', 'q'), coords={'latitude': p['u'].latitude}))
    d, lim = 'q', lambda v, i, k: cells(g)[i, k]
  else:
    m = D.ErrorExceedance(lst)
    d, lim = 'error_exceedance_thresholds', lambda v, i, k: lift_f(lst[k])
  out = m.compute(p, t)
  for v in ('u', 'v'):
    a, b = cells(p[v].data), cells(t[v].data)
    o = out[v].transpose('latitude', 'longitude', d)
    def f(i, j, k):
      e, l = core.f_abs(f_sub(a[i, j], b[i, j])), lim(v, i, k)
      return f_ite(b_or(e.nan, l.nan), NAN, f_ite(f_lt(l, e), ONE, ZERO))
    h.eq(v, o, wrapcells(objarr((2, 1, n), f)))
    if kind == 'list':
      h.true('threshold labels', o[d].values.tolist() == lst)


class W(weighting.Weighting):
  def __init__(self, w): self.w = w
  def weights(self, statistic): return self.w


@SPEC.harness('aggregated scores', cost=3)
def h_agg(h):
  n = 3
  p, t = fields(h, ('u',), (1, n))
  use_w = h.choice('weights', [False, True])
  w = [ONE] * n
  weigh = None
  if use_w:
    ws = h.floats('w', (n,), lo=0.01, hi=100)
    w = list(cells(ws))
    weigh = [W(xr.DataArray(ws, dims='longitude'))]
  agg = aggregation.Aggregator(reduce_dims=['latitude', 'longitude'], weigh_by=weigh)
  r = aggregation.compute_metric_values_for_single_chunk(
      {'rmse': D.RMSE(), 'mae': D.MAE(), 'mse': D.MSE(), 'bias': D.Bias(),
       'pa': D.PredictionAverage(), 'ta': D.TargetAverage()}, agg, p, t)
  a, b = cells(p['u'].data)[0], cells(t['u'].data)[0]
  e = [f_sub(x, y) for x, y in zip(a, b)]
  tot = fsum(w)
  mean = lambda xs: f_div(fsum(f_mul(x, y) for x, y in zip(xs, w)), tot)
  h.eq('bias', r['bias.u'], wrapcells(mean(e)))
  h.eq('mae', r['mae.u'], wrapcells(mean([core.f_abs(x) for x in e])))
  mse = mean([f_mul(x, x) for x in e])
  h.eq('mse', r['mse.u'], wrapcells(mse))
  h.eq('rmse', r['rmse.u'], wrapcells(core.f_sqrt(cells(r['mse.u'].data)[()])))
  h.eq('pa', r['pa.u'], wrapcells(mean(a)))
  h.eq('ta', r['ta.u'], wrapcells(mean(b)))


@SPEC.harness('score inequalities', cost=3)
def h_ineq(h):
  n = 2
  p, t = fields(h, ('u',), (1, n), nan=False)
  agg = aggregation.Aggregator(reduce_dims=['latitude', 'longitude'])
  r = aggregation.compute_metric_values_for_single_chunk(
      {'rmse': D.RMSE(), 'mae': D.MAE(), 'bias': D.Bias()}, agg, p, t)
  rm, ma, bi = (cells(r[k].data)[()] for k in ('rmse.u', 'mae.u', 'bias.u'))
  le = lambda a, b: b_not(f_lt(f_add(b, lift_f(1e-6)), a))
  h.check('rmse>=0', f_le(ZERO, rm))
  h.check('mae>=0', f_le(ZERO, ma))
  h.check('|bias|<=mae', f_le(core.f_abs(bi), ma))
  # mae <= rmse, by squares (both are non-negative)
  h.check('mae<=rmse', f_le(f_mul(ma, ma), f_add(f_mul(rm, rm), ZERO)))
  a, b = cells(p['u'].data)[0], cells(t['u'].data)[0]
  perfect = b_and(*[f_eq(x, y) for x, y in zip(a, b)])
  h.check('mae zero iff perfect', f_eq(ma, ZERO) if perfect is True else
          b_not(core.b_xor(f_eq(ma, ZERO), perfect)))
  h.check('rmse zero iff perfect', b_not(core.b_xor(f_eq(rm, ZERO), perfect)))
  h.check('bias zero if perfect', b_or(b_not(perfect), f_eq(bi, ZERO)))


@SPEC.harness('relative intensity')
def h_ri(h):
  p, t = fields(h, ('u',), (2, 2))
  dims = h.choice('dims', [('latitude', 'longitude'), ('longitude',)])
  masked = h.choice('masked', [False, True])
  mk = h.bools('m', (2, 2))
  T = t['u']
  if masked:
    T = T.assign_coords(mask=(('latitude', 'longitude'), mk.astype(int)))
  got = D.RelativeIntensity(spatial_dims=list(dims)).compute({'u': p['u']}, {'u': T})['u']
  a, b, m = cells(p['u'].data), cells(t['u'].data), cells(mk)
  groups = [[(i, j) for i in range(2) for j in range(2)]] if len(dims) == 2 else [
      [(i, j) for j in range(2)] for i in range(2)]
  out, counts = [], []
  for g in groups:
    sel = [m[c] if masked else True for c in g]
    cnt = fsum(fb(s) for s in sel)
    mean = lambda x: f_ite(f_eq(cnt, ZERO), ZERO, f_div(fsum(
        f_ite(s, x[c], ZERO) for s, c in zip(sel, g)), cnt))
    eps = lift_f(1e-6)
    out.append(core.f_abs(f_sub(f_div(f_add(mean(a), eps), f_add(mean(b), eps)), ONE)))
    counts.append(cnt)
  o = np.empty(len(out), dtype=object); o[:] = out
  h.eq('relative intensity', got, wrapcells(o if len(dims) == 1 else o.reshape(())))
  if masked:
    c = np.empty(len(out), dtype=object); c[:] = [fb(f_lt(ZERO, x)) for x in counts]
    h.eq('mask', got.coords['mask'].astype(float), wrapcells(c if len(dims) == 1 else c.reshape(())))


WINDOWS = {'leap': datetime.date(2020, 2, 27), 'common': datetime.date(2021, 2, 27),
           'newyear': datetime.date(2020, 12, 30), 'mid': datetime.date(2019, 7, 1)}


def clim_setup(h, form, ninit=1, nlead=2, nspace=1, nan=True, windows=None, layout='init/lead'):
  """Predictions and targets with symbolic times, a symbolic climatology and
  the oracle value of the climatology for each (init, lead, space) cell."""
  win = WINDOWS[h.choice('window', windows or list(WINDOWS))]
  base_s = (win - datetime.date(1970, 1, 1)).days * 86400
  slot = h.ints('slot', (ninit,), lo=0, hi=11)          # 6 h steps, 3 days
  h.assume(slot[1:] > slot[:-1]) if ninit > 1 else None
  leads_h = [0, 18] if nlead == 2 else [6]
  init = (slot * 21600 + base_s).astype('M8[s]').astype('M8[ns]')
  lead = np.array(leads_h, 'm8[h]').astype('m8[ns]')
  days = [win + datetime.timedelta(days=i) for i in range(4)]
  doys = sorted({d.timetuple().tm_yday for d in days})
  hours = [0, 6, 12, 18]
  co = {'x': np.arange(nspace)}
  if form == 'time':
    nt = 16
    cv = h.floats('clim', (nt, nspace), nan=nan)
    times = (np.arange(nt) * 21600 + base_s).astype('M8[s]').astype('M8[ns]')
    clim = xr.DataArray(cv, dims=('time', 'x'), coords={'time': times, **co})
    at = lambda k: ('t', k)
  elif form == 'dayofyear':
    cv = h.floats('clim', (len(doys), nspace), nan=nan)
    clim = xr.DataArray(cv, dims=('dayofyear', 'x'), coords={'dayofyear': doys, **co})
  else:
    cv = h.floats('clim', (len(hours), len(doys), nspace), nan=nan)
    clim = xr.DataArray(cv, dims=('hour', 'dayofyear', 'x'),
                        coords={'hour': hours, 'dayofyear': doys, **co})
  c = cells(cv)
  sl = cells(slot)
  def want(i, l, x):
    acc = None
    for k in range(16):
      if form == 'time':
        v = c[k, x]
      else:
        d = doys.index(days[k // 4].timetuple().tm_yday)
        v = c[d, x] if form == 'dayofyear' else c[k % 4, d, x]
      is_k = core.i_eq(core.i_add(sl[i].v, leads_h[l] // 6), k)
      acc = v if acc is None else f_ite(is_k, v, acc)
    return acc
  shape = (ninit, nlead, nspace)
  pv, tv = h.floats('p', shape, nan=nan), h.floats('t', shape, nan=nan)
  if layout == 'init/lead':
    mk = lambda v: xr.DataArray(v, dims=('init_time', 'lead_time', 'x'), coords=dict(
        init_time=init, lead_time=lead, **co), name='u')
  elif layout == 'valid dim':   # ninit*1 with a valid_time dimension only
    mk = lambda v: xr.DataArray(v[:, 0], dims=('valid_time', 'x'), coords=dict(
        valid_time=init + lead[0], **co), name='u')
  else:                         # valid_time as an extra coordinate
    mk = lambda v: xr.DataArray(v, dims=('init_time', 'lead_time', 'x'), coords=dict(
        lead_time=lead, valid_time=(('init_time', 'lead_time'), init[:, None] + lead[None, :]), **co), name='u')
  return {'u': mk(pv)}, {'u': mk(tv)}, xr.Dataset({'u': clim, 'other': clim * 2}), want, cells(pv), cells(tv)


def anom(h, form, layout):
  ni, nl = (2, 1) if layout == 'valid dim' else (1, 2)
  p, t, clim, want, a, b = clim_setup(h, form, ni, nl, 1, layout=layout)
  for nm, m, f in (
      ('SquaredPredictionAnomaly', D.SquaredPredictionAnomaly(clim),
       lambda x, y, c: f_mul(f_sub(x, c), f_sub(x, c))),
      ('SquaredTargetAnomaly', D.SquaredTargetAnomaly(clim),
       lambda x, y, c: f_mul(f_sub(y, c), f_sub(y, c))),
      ('AnomalyCovariance', D.AnomalyCovariance(clim),
       lambda x, y, c: f_mul(f_sub(x, c), f_sub(y, c)))):
    got = m.compute(p, t)['u']
    e = objarr(a.shape, lambda *i: f(a[i], b[i], want(*i)))
    if layout == 'valid dim':
      got, e = got.transpose('valid_time', 'x'), e[:, 0]
    else:
      got = got.transpose('init_time', 'lead_time', 'x')
    h.eq(nm, got, wrapcells(e))


for form in ('time', 'dayofyear', 'dayofyear/hour'):
  for layout in ('init/lead', 'valid dim', 'valid coord'):
    SPEC.add(f'anomaly statistics[{form}, {layout}]',
             (lambda f, l: lambda h: anom(h, f, l))(form, layout), cost=2)


@SPEC.harness('ACC and prediction activity', cost=3)
def h_acc(h):
  p, t, clim, want, a, b = clim_setup(h, 'dayofyear/hour', 1, 1, 3, nan=True, windows=['leap', 'newyear'])
  agg = aggregation.Aggregator(reduce_dims=['init_time', 'lead_time', 'x'])
  ms = {'acc': D.ACC(climatology=clim), 'act': D.PredictionActivity(climatology=clim)}
  st = agg.aggregate_statistics(base.compute_unique_statistics_for_all_metrics(ms, p, t))
  r = st.metric_values(ms)
  mean = st.mean_statistics()
  x = [f_sub(a[0, 0, k], want(0, 0, k)) for k in range(3)]
  y = [f_sub(b[0, 0, k], want(0, 0, k)) for k in range(3)]
  avg = lambda v: f_div(fsum(v), lift_f(3))
  cov, pp, tt = (cells(mean[k]['u'].data)[()] for k in (
      'AnomalyCovariance', 'SquaredPredictionAnomaly', 'SquaredTargetAnomaly'))
  h.eq('covariance', mean['AnomalyCovariance']['u'], wrapcells(avg([f_mul(i, j) for i, j in zip(x, y)])))
  h.eq('prediction variance', mean['SquaredPredictionAnomaly']['u'], wrapcells(avg([f_mul(i, i) for i in x])))
  h.eq('target variance', mean['SquaredTargetAnomaly']['u'], wrapcells(avg([f_mul(i, i) for i in y])))
  h.eq('acc', r['acc.u'], wrapcells(f_div(cov, f_mul(core.f_sqrt(pp), core.f_sqrt(tt)))))
  h.eq('activity', r['act.u'], wrapcells(core.f_sqrt(pp)))


@SPEC.harness('|ACC| <= 1, perfect ACC = 1', cost=3)
def h_acc1(h):
  n = 2
  mk = lambda nm: xr.DataArray(h.floats(nm, (1, n), lo=-50, hi=50), dims=('valid_time', 'x'),
                               coords={'valid_time': np.array(['2020-03-01'], 'M8[ns]')}, name='u')
  p, t = mk('p'), mk('t')
  clim = xr.Dataset({'u': mk('c').rename(valid_time='time')})
  perfect = h.choice('perfect', [False, True])
  if perfect:
    t = p
  agg = aggregation.Aggregator(reduce_dims=['valid_time', 'x'])
  ms = {'acc': D.ACC(climatology=clim)}
  st = agg.aggregate_statistics(base.compute_unique_statistics_for_all_metrics(ms, {'u': p}, {'u': t}))
  mean = st.mean_statistics()
  pp, tt, cov = (cells(mean[k]['u'].data)[()] for k in (
      'SquaredPredictionAnomaly', 'SquaredTargetAnomaly', 'AnomalyCovariance'))
  h.assume(core.B(b_and(f_lt(lift_f(0.01), pp), f_lt(lift_f(0.01), tt))))
  acc = cells(st.metric_values(ms)['acc.u'].data)[()]
  h.eq('acc', wrapcells(acc), wrapcells(f_div(cov, f_mul(core.f_sqrt(pp), core.f_sqrt(tt)))))
  # ACC^2 <= 1 is cov^2 <= pp*tt
  h.check('cov^2 <= pp*tt', f_le(f_mul(cov, cov), f_mul(pp, tt)))
  if perfect:
    h.eq('perfect', wrapcells(f_mul(acc, f_mul(core.f_sqrt(pp), core.f_sqrt(pp)))),
         wrapcells(f_mul(core.f_sqrt(pp), core.f_sqrt(pp))))


@SPEC.harness('missing climatology entry or time is an error')
def h_missing(h):
  v = h.floats('v', (1,))
  t = np.array(['2020-03-05'], 'M8[ns]')
  p = {'u': xr.DataArray(v, dims='valid_time', coords={'valid_time': t})}
  clim = xr.Dataset({'u': xr.DataArray(h.floats('c', (2,)), dims='dayofyear', coords={'dayofyear': [1, 2]})})
  with h.raises('no such day', KeyError):
    D.SquaredPredictionAnomaly(clim).compute(p, p)
  q = {'u': p['u'].rename(valid_time='z')}
  with h.raises('no time', ValueError):
    D.SquaredPredictionAnomaly(clim).compute(q, q)
