"""C15: fractions skill score uses true neighbourhood averages, within [0,1]."""
from checks.common import *
from weatherbenchX import aggregation, weighting
from weatherbenchX.metrics import spatial as S

SPEC = Spec(
    'C15',
    functions=['metrics.spatial.convolve2d_wrap_longitude', 'metrics.spatial.neighborhood_averaging',
               'metrics.spatial.SquaredFractionsError/SquaredPredictionFraction/SquaredTargetFraction',
               'metrics.spatial.FSS', 'aggregation.Aggregator.aggregate_statistics',
               'AggregationState.metric_values'],
    bounds='fields of 3x3 to 5x6 cells, every cell any value in [0,1] or NaN (or bool), '
           'windows 1, 3 and 5 and lists of windows, with and without longitude wrapping, '
           'target/prediction NaN masks with any contents',
    assumptions=['scipy.ndimage.convolve1d is replaced by its definition (wrap mode)',
                 'rounding of the single precision averaging kernel is not modelled'])


def frac(a, n, wrap):
  """Expected neighbourhood fraction; points without a full window are 0."""
  H_, W_ = a.shape
  k = n // 2
  out = np.empty((H_, W_), dtype=object)
  inside = np.empty((H_, W_), dtype=bool)
  for i in range(H_):
    for j in range(W_):
      ok = k <= i < H_ - k and (wrap or k <= j < W_ - k)
      inside[i, j] = ok
      out[i, j] = ZERO if not ok else f_div(fsum(
          a[i + u, (j + v) % W_] for u in range(-k, k + 1) for v in range(-k, k + 1)), lift_f(n * n))
  return out, inside


def field(v, mask=None, order=('latitude', 'longitude'), **lead):
  dims = tuple(lead) + ('latitude', 'longitude')
  co = {'latitude': np.arange(v.shape[-2]) * 1.0, 'longitude': np.arange(v.shape[-1]) * 2.0, **lead}
  d = xr.DataArray(v, dims=dims, coords=co, name='u')
  if mask is not None:
    d = d.assign_coords(mask=(('latitude', 'longitude'), mask))
  return d.transpose(*lead, *order)


def window(h, shape, n, wrap):
  kind = h.choice('kind', ['float', 'bool'] if shape == (3, 4) else ['float'])
  v = h.floats('v', shape, lo=0, hi=1, nan=True) if kind == 'float' else h.bools('v', shape)
  flip = h.choice('longitude first', [False, True])
  d = field(v, order=('longitude', 'latitude') if flip else ('latitude', 'longitude'))
  r = S.neighborhood_averaging(d, n, wrap)
  a = cells(v.astype(float))
  for k in (n if isinstance(n, list) else [n]):
    g = r.sel(neighborhood_size=k) if isinstance(n, list) else r
    h.eq(f'fraction {k}', g.transpose('latitude', 'longitude'), wrapcells(frac(a, k, wrap)[0]))
  if isinstance(n, list):
    h.true('sizes', list(r.neighborhood_size.values) == n)
  h.eq('input untouched', d.transpose('latitude', 'longitude'), v)


for shape, n, wrap in (((3, 3), 3, False), ((4, 5), 3, False), ((3, 4), 3, True), ((3, 3), 1, False),
                       ((5, 6), 5, False), ((5, 5), 5, True), ((4, 4), [1, 3], False), ((4, 4), 5, False),
                       ((4, 4), [3, 1], True)):
  SPEC.add(f'window[{shape} {n} wrap={wrap}]', (lambda s, n, w: lambda h: window(h, s, n, w))(shape, n, wrap))


def masks(h, shape, n, wrap, steps):
  """An average is valid exactly if its whole window is."""
  m = h.bools('m', (steps,) + shape if steps else shape)
  if isinstance(n, list):      # a few symbolic cells, as xarray compares the masks of the sizes
    free = [tuple(x % s for x, s in zip(k, m.shape)) for k in ((0, 1, 2), (1, 2, 3)) for k in [k[:m.ndim]]]
    m = wrapcells(objarr(m.shape, lambda *k: cells(m)[k] if k in free else True)).astype(bool)
  dims = (('time',) if steps else ()) + ('latitude', 'longitude')
  co = {'latitude': np.arange(shape[0]) * 1., 'longitude': np.arange(shape[1]) * 2., 'mask': (dims, m)}
  if h.choice('mask order', [False, True]):
    co['mask'] = (dims[::-1], m.transpose(*range(m.ndim)[::-1]))
  d = xr.DataArray(np.ones(((steps,) if steps else ()) + shape), dims=dims, coords=co, name='u')
  if h.choice('longitude first', [False, True]):
    d = d.transpose('longitude', 'latitude', ...)
  r = S.neighborhood_averaging(d, n, wrap)
  c = cells(m).reshape((max(steps, 1),) + shape)
  for k in (n if isinstance(n, list) else [n]):
    g = r.mask      # xarray drops the size dimension of masks that agree
    if 'neighborhood_size' in g.dims:
      g = g.sel(neighborhood_size=k, drop=True)
    e, u = np.empty(c.shape, dtype=object), k // 2
    for s, i, j in np.ndindex(c.shape):
      ok = u <= i < shape[0] - u and (wrap or u <= j < shape[1] - u)
      e[s, i, j] = b_and(*[c[s, i + a, (j + b) % shape[1]] for a in range(-u, u + 1)
                           for b in range(-u, u + 1)]) if ok else False
    h.eq(f'mask {k}', g.transpose(*dims), wrapcells(e if steps else e[0]))
  h.eq('input mask untouched', d.mask.transpose(*dims), m)


for shape, n, wrap, steps in (((5, 6), 5, False, 0), ((5, 5), 5, True, 0), ((7, 8), 7, False, 0),
                              ((3, 4), 3, False, 2), ((5, 5), [3, 5], False, 0), ((3, 3), [3, 1], True, 2)):
  SPEC.add(f'masks[{shape} {n} wrap={wrap} {steps}]',
           (lambda s, n, w, k: lambda h: masks(h, s, n, w, k))(shape, n, wrap, steps))


@SPEC.harness('window sizes must be odd')
def h_odd(h):
  d = field(h.floats('v', (3, 3)))
  for n in (2, 4):
    with h.raises(f'{n}', ValueError):
      S.neighborhood_averaging(d, n, True)


def sq(x): return f_mul(x, x)


def stats(h, kind, n, wrap):
  """The three statistics are squares of the fractions."""
  shape = (3, 4)
  if kind == 'bool':
    p, t = h.bools('p', (2,) + shape), h.bools('t', (2,) + shape)
  else:
    p, t = (h.floats(k, (2,) + shape, lo=0, hi=1, nan=True) for k in 'pt')
  P, T = {'u': field(p, time=[0, 1])}, {'u': field(t, time=[0, 1])}
  m = S.FSS(n, wrap)
  got = {k: s.compute(P, T)['u'].transpose('time', 'latitude', 'longitude') for k, s in m.statistics.items()}
  h.true('names', set(got) == {'SquaredFractionsError', 'SquaredPredictionFraction', 'SquaredTargetFraction'})
  a, b = cells(p.astype(float) if kind == 'bool' else p), cells(t.astype(float) if kind == 'bool' else t)
  A, B = [frac(x, n, wrap)[0] for x in a], [frac(x, n, wrap)[0] for x in b]
  f = lambda fn: wrapcells(objarr((2,) + shape, lambda k, i, j: fn(A[k][i, j], B[k][i, j])))
  nn = lambda v, o: f_ite(o.nan, NAN, v)
  h.eq('error', got['SquaredFractionsError'], f(lambda x, y: sq(f_sub(x, y))))
  h.eq('prediction', got['SquaredPredictionFraction'], f(lambda x, y: nn(sq(x), y)))
  h.eq('target', got['SquaredTargetFraction'], f(lambda x, y: nn(sq(y), x)))


for kind, n, wrap in (('float', 3, False), ('float', 3, True), ('float', 1, False), ('bool', 1, False)):
  SPEC.add(f'statistics[{kind} {n} wrap={wrap}]', (lambda k, n, w: lambda h: stats(h, k, n, w))(kind, n, wrap), cost=2)


@SPEC.harness('score of averaged statistics')
def h_score(h):
  e, p, t = (h.floats(k, (2,), nan=True) for k in 'ept')
  mk = lambda v: {'u': xr.DataArray(v, dims='x', name='u')}
  got = S.FSS(3).values_from_mean_statistics({
      'SquaredFractionsError': mk(e), 'SquaredPredictionFraction': mk(p), 'SquaredTargetFraction': mk(t)})['u']
  h.eq('FSS', got, wrapcells([f_sub(ONE, f_div(x, f_add(y, z))) for x, y, z in zip(cells(e), cells(p), cells(t))]))


def fss(h, shape, n, wrap, missing):
  """End to end: FSS over one field, with missing data, in [0,1]."""
  nan = missing in ('nan', 'skip', 'same', 'target mask')
  if missing == 'bool':
    p, t = h.bools('p', shape), h.bools('t', shape)
    a, b = cells(p.astype(float)), cells(t.astype(float))
  else:
    p = h.floats('p', shape, lo=0, hi=1, nan=nan)
    t = p if missing == 'same' else h.floats('t', shape, lo=0, hi=1, nan=nan)
    a, b = cells(p), cells(t)
  mask = h.bools('m', shape) if missing in ('target mask', 'both masks') else None
  P = {'u': field(p, mask if missing == 'both masks' else None)}
  T = {'u': field(t, mask)}
  agg = aggregation.Aggregator(reduce_dims=['latitude', 'longitude'], skipna=missing == 'skip',
                               masked=mask is not None)
  got = aggregation.compute_metric_values_for_single_chunk({'m': S.FSS(n, wrap)}, agg, P, T)['m.u']
  A, inside = frac(a, n, wrap)
  B, _ = frac(b, n, wrap)
  mk = cells(mask) if mask is not None else None
  num, den = [], []
  k = n // 2
  for i in range(shape[0]):
    for j in range(shape[1]):
      if not inside[i, j]:
        continue
      x, y = A[i, j], B[i, j]
      e, r = sq(f_sub(x, y)), f_add(sq(x), sq(y))
      ok = True
      if mk is not None:
        ok = b_and(*[mk[i + u, (j + v) % shape[1]] for u in range(-k, k + 1) for v in range(-k, k + 1)])
      if missing == 'skip':
        ok = b_and(ok, b_not(x.nan), b_not(y.nan))
      num.append(f_ite(ok, e, ZERO)); den.append(f_ite(ok, r, ZERO))
  N, D = fsum(num), fsum(den)
  h.eq('FSS', got, wrapcells(np.asarray(f_sub(ONE, f_div(N, D)), dtype=object)))
  if mask is not None:
    return
  g = cells(got.data)[()]
  bad = b_or(g.nan, f_le(D, ZERO))     # no event at all: undefined
  h.true('at most one', b_or(bad, f_le(g, ONE)))
  h.true('at least zero', b_or(bad, f_le(ZERO, g)))
  if missing == 'same':
    h.true('one for identical fields', b_or(bad, f_eq(g, ONE)))
    h.true('missing iff a used cell is missing', True)


for shape, n, wrap, missing in (
    ((3, 3), 3, False, 'no'), ((3, 4), 3, False, 'nan'), ((3, 3), 3, True, 'no'), ((3, 4), 3, False, 'skip'),
    ((3, 4), 3, False, 'target mask'), ((3, 4), 3, False, 'both masks'), ((3, 4), 3, False, 'same'),
    ((2, 2), 1, False, 'bool'), ((1, 3), 1, False, 'skip')):
  SPEC.add(f'FSS[{shape} {n} wrap={wrap} {missing}]',
           (lambda s, n, w, m: lambda h: fss(h, s, n, w, m))(shape, n, wrap, missing), cost=4)
