"""C11: multi-category scores follow their scoring rules everywhere."""
from checks.common import *
import datetime
from weatherbenchX import aggregation
from weatherbenchX.metrics import base, categorical as C, wrappers as W

SPEC = Spec(
    'C11',
    functions=['metrics.categorical.SEEPS', 'metrics.categorical.RankedProbabilityScore',
               'metrics.categorical.Reliability', 'metrics.categorical.Confident/Covered/'
               'JaccardDistant/Opportunism', 'metrics.wrappers.compute_cdf/ContinuousToBins/'
               'ContinuousToCDF/EnsembleMean/WrappedMetric/WrappedStatistic',
               'metrics.base.PerVariableStatisticWithClimatology'],
    bounds='SEEPS: 2 locations x 1-2 leads, every precipitation amount (or NaN), '
           'every wet threshold above the dry threshold, every dry fraction in '
           '[0,1] per climatology entry (4 entries), symbolic initialisation '
           'time over the climatology; RPS up to 4 bins; reliability up to 10 '
           'bins x 3 pairs; interval statistics with 3 members and the default '
           'and other quantile limits',
    assumptions=['the wet threshold of the SEEPS climatology is above the dry '
                 'threshold and finite; climatological dry fractions are not NaN',
                 'quantiles of an ensemble with some missing members are those of '
                 'the present members'])


def seeps(h, form):
  """form selects where a mask comes from and how limits are given."""
  dry_mm = {'a': 0.25, 'b': 1.0}
  lo, hi = {'a': 0.1, 'b': 0.25}, {'a': 0.85, 'b': 0.5}
  names = ['a', 'b'] if form == 'lists' else ['a']
  nlat, nlon = 1, 2
  nl = 2 if form == 'plain' else 1
  d0 = datetime.date(2020, 2, 28)
  base_s = (d0 - datetime.date(1970, 1, 1)).days * 86400
  slot = h.ints('slot', (1,), lo=0, hi=3 - (nl - 1))
  init = (slot * 43200 + base_s).astype('M8[s]').astype('M8[ns]')
  lead = (np.arange(nl) * 12).astype('m8[h]').astype('m8[ns]')
  co = {'latitude': [50.], 'longitude': [0., 10.]}
  clim, th, fr = {}, {}, {}
  for n in names:
    th[n] = h.floats(f'th_{n}', (2, 2, nlat, nlon), lo=dry_mm[n] / 1000 * 1.01, hi=10)
    fr[n] = h.floats(f'fr_{n}', (2, 2, nlat, nlon), lo=0, hi=1)
    mk = lambda v: xr.DataArray(v, dims=('hour', 'dayofyear', 'latitude', 'longitude'),
                                coords={'hour': [0, 12], 'dayofyear': [59, 60], **co})
    clim[f'{n}_seeps_threshold'] = mk(th[n])
    clim[f'{n}_seeps_dry_fraction'] = mk(fr[n])
  shape = (1, nl, nlat, nlon)
  pv = {n: h.floats(f'p_{n}', shape, nan=True) for n in names}
  tv = {n: h.floats(f't_{n}', shape, nan=True) for n in names}
  mk = lambda v, n: xr.DataArray(v, dims=('init_time', 'lead_time', 'latitude', 'longitude'),
                                 coords=dict(init_time=init, lead_time=lead, **co), name=n)
  P, T = {n: mk(pv[n], n) for n in names}, {n: mk(tv[n], n) for n in names}
  mv = h.bools('mask', (nlat, nlon))
  if form == 'targets mask':
    T['a'] = T['a'].assign_coords(mask=(('latitude', 'longitude'), mv))
  if form == 'predictions mask':
    P['a'] = P['a'].assign_coords(mask=(('latitude', 'longitude'), mv))
  if form == 'lists':
    m = C.SEEPS(names, xr.Dataset(clim), dry_threshold_mm=[dry_mm[n] for n in names],
                min_p1=[lo[n] for n in names], max_p1=[hi[n] for n in names])
  else:
    m = C.SEEPS(names, xr.Dataset(clim))
  out = m.compute(P, T)
  h.true('variables', set(out) == set(names))
  s = cells(slot)[0].v
  for n in names:
    got = out[n].transpose('init_time', 'lead_time', 'latitude', 'longitude')
    dry = lift_f(dry_mm[n] / 1000.0)
    f, t_, p, q = cells(fr[n]), cells(th[n]), cells(pv[n]), cells(tv[n])
    okm = {}
    def p1(j):
      return f_div(fsum(f[a, b, 0, j] for a in range(2) for b in range(2)), lift_f(4))
    def inside(j):
      x = p1(j)
      return b_and(f_le(lift_f(lo[n]), x), f_le(x, lift_f(hi[n])))
    def want(i, l, la, j):
      w = None
      for k in range(4):                    # slot: day k//2, hour 12*(k%2)
        v = t_[k % 2, k // 2, 0, j]
        w = v if w is None else f_ite(core.i_eq(core.i_add(s, l), k), v, w)
      def cat(x):
        d = f_le(x, dry)
        hv = f_le(w, x)
        return [d, b_and(b_not(d), b_not(hv)), b_and(b_not(d), hv)]
      x = p1(j)
      q1 = f_sub(ONE, x)
      two = f_add(lift_f(2), x)
      half = lambda num, den: f_mul(lift_f(0.5), f_div(lift_f(num), den))
      Z = ZERO
      mat = [[Z, half(1, q1), half(4, q1)],
             [half(1, x), Z, half(3, q1)],
             [f_add(half(1, x), half(3, two)), half(3, two), Z]]   # [forecast][observed]
      a, b = p[i, l, 0, j], q[i, l, 0, j]
      ca, cb = cat(a), cat(b)
      r = NAN
      for u in range(3):
        for v in range(3):
          r = f_ite(b_and(ca[u], cb[v]), mat[u][v], r)
      return f_ite(b_or(a.nan, b.nan, b_not(inside(j))), NAN, r)
    h.eq(f'SEEPS {n}', got, wrapcells(objarr(shape, want)))
    mk_ = [inside(j) for j in range(nlon)]
    if 'mask' in form:
      mk_ = [b_and(x, y) for x, y in zip(mk_, cells(mv)[0])]
    h.true('mask dims', set(got.mask.dims) == {'latitude', 'longitude'}, str(got.mask.dims))
    h.eq(f'mask {n}', got.mask.transpose('latitude', 'longitude').astype(float),
         wrapcells(objarr((1, nlon), lambda i, j: fb(mk_[j]))))


for f in ('plain', 'lists', 'targets mask', 'predictions mask'):
  SPEC.add(f'SEEPS[{f}]', (lambda f: lambda h: seeps(h, f))(f), cost=5)


@SPEC.harness('SEEPS rejects two masks and ragged arguments')
def h_seeps_err(h):
  v = h.floats('v', (1, 1, 1, 1))
  d = xr.DataArray(v, dims=('init_time', 'lead_time', 'latitude', 'longitude'), coords={
      'init_time': np.array(['2020-01-01'], 'M8[ns]'), 'lead_time': np.array([0], 'm8[h]').astype('m8[ns]'),
      'latitude': [0.], 'longitude': [0.], 'mask': (('latitude', 'longitude'), [[True]])}, name='a')
  cl = xr.DataArray(h.floats('c', (1, 1, 1, 1), lo=0.3, hi=0.5), dims=('hour', 'dayofyear', 'latitude', 'longitude'),
                    coords={'hour': [0], 'dayofyear': [1], 'latitude': [0.], 'longitude': [0.]})
  ds = xr.Dataset({'a_seeps_threshold': cl, 'a_seeps_dry_fraction': cl})
  with h.raises('two masks', ValueError):
    C.SEEPS(['a'], ds).compute({'a': d}, {'a': d})
  with h.raises('ragged', AssertionError):
    C.SEEPS(['a'], ds, dry_threshold_mm=[0.1, 0.2])


def nansum_sq(a, b):
  return fsum(f_mul(f_sub(x, y), f_sub(x, y)) for x, y in zip(a, b))


@SPEC.harness('ranked probability score')
def h_rps(h):
  n = h.choice('bins', [1, 3])
  shape = (2, n)
  p, t = h.floats('p', shape, nan=True), h.floats('t', shape, nan=True)
  mk = lambda v: {'u': xr.DataArray(v, dims=('x', 'bin'), coords={'bin': np.arange(n)}, name='u')}
  got = C.RankedProbabilityScore(bin_dim='bin').compute(mk(p), mk(t))['u']
  a, b = cells(p), cells(t)
  h.true('dims', got.dims == ('x',))
  h.eq('rps', got, wrapcells(objarr((2,), lambda i: nansum_sq(a[i], b[i]))))


@SPEC.harness('ranked probability score of binned values')
def h_rps2(h):
  """Ensemble -> CDF -> ensemble mean, target -> CDF."""
  m, edges = 2, [0.0, 1.0, 2.5]
  ri = h.choice('right_inclusive', [True, False])
  p, t = h.floats('p', (2, m), nan=True), h.floats('t', (2,), nan=True)
  P = {'u': xr.DataArray(p, dims=('x', 'number'), name='u')}
  T = {'u': xr.DataArray(t, dims=('x',), name='u')}
  metric = W.WrappedMetric(
                           base_metric(C.RankedProbabilityScore(bin_dim='q')),
                           [W.ContinuousToCDF('both', edges, 'q', right_inclusive=ri),
                            W.EnsembleMean('predictions', 'number')])
  st = list(metric.statistics.values())[0].compute(P, T)['u']
  a, b = cells(p), cells(t)
  le = (lambda x, e: f_le(x, lift_f(e))) if ri else (lambda x, e: f_lt(x, lift_f(e)))
  def want(i):
    terms = []
    for e in edges:
      F_ = f_div(fsum(f_ite(x.nan, NAN, fb(le(x, e))) for x in a[i]), lift_f(m))
      o = f_ite(b[i].nan, NAN, fb(le(b[i], e)))
      terms.append(f_mul(f_sub(F_, o), f_sub(F_, o)))
    return fsum(terms)
  h.eq('rps', st, wrapcells(objarr((2,), want)))


def base_metric(stat):
  """A per-variable metric that is the mean of one statistic."""
  class M(base.PerVariableMetric):
    @property
    def statistics(self): return {'s': stat}
    def _values_from_mean_statistics_per_variable(self, statistic_values):
      return statistic_values['s']
  return M()


def reliability(h, default):
  edges = [-np.inf] + [float(f'{x:.1f}') for x in np.arange(1, 11) / 10] if default else [-np.inf, 0.2, 0.6, 1.0]
  n = 2 if default else 3
  nan = not default
  p = h.floats('p', (n,), lo=0, hi=1, nan=nan)
  t = h.bools('t', (n,))
  tn = h.bools('tn', (n,))
  tv = t.astype(float)
  if nan:
    tv = np.where(tn, np.nan, tv)
  P = {'u': xr.DataArray(p, dims='x', name='u')}
  T = {'u': xr.DataArray(tv, dims='x', name='u')}
  m = C.Reliability() if default else C.Reliability(bin_values=edges, bin_dim='b')
  dim = 'reliability_bin' if default else 'b'
  k = len(edges) - 1
  a, b, bn = cells(p), cells(t), cells(tn)
  inb = lambda x, j: b_and(True if edges[j] == -np.inf else f_lt(lift_f(edges[j]), x), f_le(x, lift_f(edges[j + 1])))
  stats = {nm: s.compute(P, T)['u'].transpose('x', dim) for nm, s in m.statistics.items()}
  for nm, pos in (('TruePositives', True), ('FalsePositives', False)):
    def f(i, j):
      bad = b_or(a[i].nan, bn[i]) if nan else False
      return f_ite(bad, NAN, fb(b_and(inb(a[i], j), b[i] if pos else b_not(b[i]))))
    h.eq(nm, stats[nm], wrapcells(objarr((n, k), f)))
  h.true('right edges', np.allclose(stats['TruePositives'][f'{dim}_right'].values, edges[1:]))
  # every probability falls in exactly one bin
  if edges[-1] == 1.0:
    tot = objarr((n,), lambda i: fsum(fb(inb(a[i], j)) for j in range(k)))
    h.eq('one bin', stats['TruePositives'].sum(dim, skipna=False) + stats['FalsePositives'].sum(dim, skipna=False),
         wrapcells(objarr((n,), lambda i: f_ite(b_or(a[i].nan, bn[i]) if nan else False, NAN, ONE))))
  r = aggregation.compute_metric_values_for_single_chunk({'r': m}, aggregation.Aggregator(reduce_dims=['x']), P, T)['r.u']
  bad = b_or(*[b_or(a[i].nan, bn[i]) for i in range(n)]) if nan else False
  def curve(j):
    hits = fsum(fb(b_and(inb(a[i], j), b[i])) for i in range(n))
    tot = fsum(fb(inb(a[i], j)) for i in range(n))
    return f_ite(bad, NAN, f_div(hits, tot))
  h.eq('curve', r.transpose(dim), wrapcells(objarr((k,), curve)))


SPEC.add('reliability[custom bins]', lambda h: reliability(h, False), cost=2)
SPEC.add('reliability[default bins]', lambda h: reliability(h, True), cost=2)


def sort3(v):
  a, b, c = v
  lo, hi = f_min(a, b), f_max(a, b)
  return [f_min(lo, c), f_max(lo, f_min(hi, c)), f_max(hi, c)]


def quant(v, q):
  s = sort3(v)
  pos = Fraction(q).limit_denominator(10**6) * (len(v) - 1)
  i = min(int(pos), len(v) - 2)
  return f_add(s[i], f_mul(F(pos - i), f_sub(s[i + 1], s[i])))


@SPEC.harness('interval statistics and opportunism', cost=4)
def h_interval(h):
  lo, hi = h.choice('quantiles', [(0.1, 0.9), (0.25, 0.75)])
  conf, jac = h.choice('thresholds', [(0.7, 0.75), (1.0, 0.5)])
  p, t = h.floats('p', (1, 3), lo=-100, hi=100), h.floats('t', (1,), lo=-100, hi=100)
  cv = h.floats('clim', (2, 1, 2), lo=-100, hi=100)
  h.assume(cv[1] > cv[0])
  s = h.ints('slot', (1,), lo=0, hi=1)
  vt = (s * 86400 + 18262 * 86400).astype('M8[s]').astype('M8[ns]')   # 1-2 January 2020
  mk = lambda v, d: {'u': xr.DataArray(v, dims=d, coords={'valid_time': vt}, name='u')}
  P, T = mk(p, ('valid_time', 'number')), mk(t, ('valid_time',))
  clim = xr.Dataset({'u': xr.DataArray(cv, dims=('quantile', 'hour', 'dayofyear'), coords={
      'quantile': [lo, hi], 'hour': [0], 'dayofyear': [1, 2]})})
  first = core.i_eq(cells(s)[0].v, 0)
  c = cells(cv)
  cl, ch = (f_ite(first, c[k, 0, 0], c[k, 0, 1]) for k in (0, 1))
  a, y = list(cells(p)[0]), cells(t)[0]
  ql, qh = quant(a, lo), quant(a, hi)
  confident = f_lt(f_sub(qh, ql), f_mul(lift_f(conf), f_sub(ch, cl)))
  covered = b_and(f_le(ql, y), f_le(y, qh))
  inter = f_max(ZERO, f_sub(f_min(qh, ch), f_max(ql, cl)))
  union = f_sub(f_add(f_sub(qh, ql), f_sub(ch, cl)), inter)
  # 1 - inter/union > jac  <=>  inter < (1-jac)*union   (union > 0 here)
  distant = f_lt(inter, f_mul(lift_f(1 - jac), union))
  kw = dict(ensemble_dim='number', climatology=clim)
  tol = lift_f(1e-9)
  near = lambda x, y: f_le(core.f_abs(f_sub(x, y)), tol)   # ties: rounding decides
  e1 = near(f_sub(qh, ql), f_mul(lift_f(conf), f_sub(ch, cl)))
  e2 = b_or(near(ql, y), near(qh, y))
  e3 = near(inter, f_mul(lift_f(1 - jac), union))
  st = {'c': C.Confident(spread_quantile_boundaries=(lo, hi), confidence_threshold=conf, **kw),
        'v': C.Covered(ensemble_dim='number', interval_quantile_boundaries=(lo, hi)),
        'j': C.JaccardDistant(threshold=jac, interval_quantile_boundaries=(lo, hi), **kw)}
  for k, want, tie in (('c', confident, e1), ('v', covered, e2), ('j', distant, e3)):
    got = st[k].compute(P, T)['u']
    h.eq(type(st[k]).__name__, got.astype(float), wrapcells([fb(want)]), unless=tie)
  for ic, iv, ij in h.choice('which', [[(True, True, True), (False, True, None)],
                                       [(True, False, False), (False, None, True), (True, None, None)]]):
    m = C.Opportunism(is_confident=ic, is_covered=iv, is_jaccard_distant=ij,
                      confidence_quantile_boundaries=(lo, hi), coverage_quantile_boundaries=(lo, hi),
                      jaccard_distance_quantile_boundaries=(lo, hi), confidence_threshold=conf,
                      jaccard_distance_threshold=jac, **kw)
    f = {k: xr.DataArray(h.floats(f'f{k}{ic}{iv}{ij}', (2,), lo=0, hi=1), dims='x', name='u') for k in ('Confident', 'Covered', 'JaccardDistant')}
    h.true('statistics used', set(m.statistics) == {'Confident'} | ({'Covered'} if iv is not None else set())
           | ({'JaccardDistant'} if ij is not None else set()))
    got = m.values_from_mean_statistics({k: {'u': f[k]} for k in m.statistics})['u']
    def opp(i):
      r = ONE
      for k, b in (('Confident', ic), ('Covered', iv), ('JaccardDistant', ij)):
        if b is not None:
          x = cells(f[k].data)[i]
          r = f_mul(r, x if b else f_sub(ONE, x))
      return r
    h.eq('Opportunism', got, wrapcells(objarr((2,), opp)))


def quant_present(v, q):
  """Quantile over the non-NaN members (NaN if there are none)."""
  out = NAN
  for k in range(1, len(v) + 1):
    for s in itertools.combinations(range(len(v)), k):
      sub = [v[i] for i in s]
      val = quant(sub, q) if k == 3 else quant2(sub, q)
      here = b_and(*[b_not(v[i].nan) if i in s else v[i].nan for i in range(len(v))])
      out = f_ite(here, val, out)
  return out


def quant2(v, q):
  if len(v) == 1:
    return v[0]
  a, b = f_min(*v), f_max(*v)
  return f_add(a, f_mul(F(Fraction(q).limit_denominator(10**6)), f_sub(b, a)))


@SPEC.harness('interval statistics of missing values', cost=4)
def h_interval_nan(h):
  lo, hi = 0.25, 0.75
  p, t = h.floats('p', (1, 3), lo=-100, hi=100, nan=True), h.floats('t', (1,), lo=-100, hi=100, nan=True)
  cv = h.floats('clim', (2, 1, 1), lo=-100, hi=100, nan=True)
  c = cells(cv)[:, 0, 0]
  h.assume(wrapcells([b_or(c[0].nan, c[1].nan, f_lt(c[0], c[1]))]).astype(bool))
  vt = np.array(['2020-01-01'], 'M8[ns]')
  mk = lambda v, d: {'u': xr.DataArray(v, dims=d, coords={'valid_time': vt}, name='u')}
  P, T = mk(p, ('valid_time', 'number')), mk(t, ('valid_time',))
  clim = xr.Dataset({'u': xr.DataArray(cv, dims=('quantile', 'hour', 'dayofyear'), coords={
      'quantile': [lo, hi], 'hour': [0], 'dayofyear': [1]})})
  a, y = list(cells(p)[0]), cells(t)[0]
  ql, qh = quant_present(a, lo), quant_present(a, hi)
  nop, noc = ql.nan, b_or(c[0].nan, c[1].nan)
  diff, width = f_sub(qh, ql), f_sub(c[1], c[0])
  inter = f_max(ZERO, f_sub(f_min(qh, c[1]), f_max(ql, c[0])))
  union = f_sub(f_add(diff, width), inter)
  near = lambda x, y: f_le(core.f_abs(f_sub(x, y)), lift_f(1e-9))
  kw = dict(ensemble_dim='number', climatology=clim)
  for st, want, miss, tie in (
      (C.Confident(spread_quantile_boundaries=(lo, hi), confidence_threshold=0.5, **kw),
       f_lt(diff, f_mul(lift_f(0.5), width)), b_or(nop, noc), near(diff, f_mul(lift_f(0.5), width))),
      (C.Covered(ensemble_dim='number', interval_quantile_boundaries=(lo, hi)),
       b_and(f_le(ql, y), f_le(y, qh)), b_or(nop, y.nan), b_or(near(ql, y), near(qh, y))),
      (C.JaccardDistant(threshold=0.75, interval_quantile_boundaries=(lo, hi), **kw),
       f_lt(inter, f_mul(lift_f(0.25), union)), b_or(nop, noc), near(inter, f_mul(lift_f(0.25), union)))):
    got = st.compute(P, T)['u']
    h.eq(type(st).__name__, got.astype(float), wrapcells([f_ite(miss, NAN, fb(want))]), unless=b_and(tie, b_not(miss)))
