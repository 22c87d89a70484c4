"""C06: latitude weights are areas of a tiling of the sphere."""
import math
from checks.common import *
from weatherbenchX import weighting, aggregation

SPEC = Spec(
    'C06',
    functions=['weighting.GridAreaWeighting.weights', 'weighting.cell_area_from_latitude',
               'weighting.latitude_cell_bounds', 'weighting._is_strictly_monotonic'],
    bounds='2 to 4 latitudes (5 thorough), arbitrary reals in [-90,90], '
           'increasing or decreasing, any spacing; float64 and float32 axes',
    assumptions=['sin is an uninterpreted function with range, monotonicity on '
                 '[-90,90] degrees, oddness and its values at 0 and +-90 degrees'])

K = Fraction(math.pi) / 180


def sin_deg(x):
  return core.f_uf('sin', f_mul(x, lift_f(K)))


def areas(lat):
  """Cell areas of an increasing axis (list of F, degrees)."""
  n = len(lat)
  half = lift_f(Fraction(1, 2))
  b = [f_max(f_sub(lat[0], f_mul(half, f_sub(lat[1], lat[0]))), lift_f(-90))]
  for i in range(n - 1):
    b.append(f_mul(half, f_add(lat[i], lat[i + 1])))
  b.append(f_min(f_add(lat[-1], f_mul(half, f_sub(lat[-1], lat[-2]))), lift_f(90)))
  return [f_sub(sin_deg(b[i + 1]), sin_deg(b[i])) for i in range(n)]


def axis(h, n, inc):
  lat = h.floats('lat', (n,), lo=-90, hi=90)
  c = cells(lat)
  for i in range(n - 1):
    # gaps above rounding level, as on any real grid
    gap = f_sub(c[i + 1], c[i]) if inc else f_sub(c[i], c[i + 1])
    h.assume(f_le(lift_f(Fraction(1, 1000)), gap))
  return lat, c


def mk(h, lat, name='latitude', extra=True, dtype='f8'):
  n = len(lat)
  sh = (2, n) if extra else (n,)
  d = ('t', name) if extra else (name,)
  return xr.DataArray(h.floats('v', sh), dims=d, coords=coords_noindex(**{name: (name, lat.astype(dtype))}))


def weights(h, n, inc, norm, name='latitude', dtype='f8'):
  lat, c = axis(h, n, inc)
  da = mk(h, lat, name, dtype=dtype)
  kw = {} if norm and name == 'latitude' else dict(latitude_name=name, return_normalized=norm)
  w = weighting.GridAreaWeighting(**kw).weights(da)
  h.true('dims', w.dims == (name,), str(w.dims))
  h.eq('coordinate is kept', w[name], lat)
  up = list(c) if inc else list(c)[::-1]
  a = areas(up)
  if not inc:
    a = a[::-1]
  wc = cells(w)
  for i in range(n):
    h.check(f'weight {i} is positive', f_lt(ZERO, wc[i]))
  if norm:
    m = f_div(fsum(a), lift_f(n))
    h.eq('weights', w, wrapcells(np.array([f_div(x, m) for x in a], dtype=object)))
    h.eq('mean is one', np.mean(w.data), 1.)
  else:
    h.eq('weights', w, wrapcells(np.array(a, dtype=object)))
    lo = f_max(f_sub(up[0], f_mul(lift_f(Fraction(1, 2)), f_sub(up[1], up[0]))), lift_f(-90))
    hi = f_min(f_add(up[-1], f_mul(lift_f(Fraction(1, 2)), f_sub(up[-1], up[-2]))), lift_f(90))
    h.eq('cells tile the covered band', np.sum(w.data),
         wrapcells(np.array(f_sub(sin_deg(hi), sin_deg(lo)), dtype=object)))


for _n in (2, 3, 4) + ((5,) if THOROUGH else ()):
  for _i in (True, False):
    for _nm in (True, False):
      SPEC.add(f'weights[{_n},increasing={_i},normalized={_nm}]',
               (lambda n, i, m: lambda h: weights(h, n, i, m))(_n, _i, _nm), cost=_n)
SPEC.add('weights[other name]', lambda h: weights(h, 3, True, True, name='lat'))
SPEC.add('weights[other name,raw]', lambda h: weights(h, 3, False, False, name='lat'))


def reverse(h, n, norm):
  lat, c = axis(h, n, True)
  da = mk(h, lat, extra=False)
  g = weighting.GridAreaWeighting(return_normalized=norm)
  h.eq('reversed axis', g.weights(da[::-1]).data[::-1], g.weights(da).data)


for _n in (2, 3, 4):
  for _nm in (True, False):
    SPEC.add(f'reversal[{_n},normalized={_nm}]', (lambda n, m: lambda h: reverse(h, n, m))(_n, _nm))


def nonmono(h, n):
  lat = h.floats('lat', (n,), lo=-90, hi=90)
  c = cells(lat)
  h.assume(b_not(b_or(b_and(*[f_lt(c[i], c[i + 1]) for i in range(n - 1)]),
                      b_and(*[f_lt(c[i + 1], c[i]) for i in range(n - 1)]))))
  with h.raises('non-monotonic axis', AssertionError):
    weighting.GridAreaWeighting().weights(mk(h, lat))


for _n in (2, 3, 4):
  SPEC.add(f'non-monotonic axis is rejected[{_n}]', (lambda n: lambda h: nonmono(h, n))(_n))


@SPEC.harness('poles: full sphere')
def poles(h):
  """An axis reaching both poles covers the whole sphere."""
  lat = h.floats('lat', (4,), lo=-90, hi=90)
  c = cells(lat)
  for i in range(3):
    h.assume(f_le(f_add(c[i], lift_f(Fraction(1, 1000))), c[i + 1]))
  h.assume(f_eq(c[0], lift_f(-90)))
  h.assume(f_eq(c[3], lift_f(90)))
  w = weighting.GridAreaWeighting(return_normalized=False).weights(mk(h, lat))
  h.eq('total area', np.sum(w.data), 2.)


@SPEC.harness('no latitude dimension')
def nolat(h):
  v = h.floats('v', (2, 2))
  scalar = h.choice('scalar latitude', [False, True])
  lat = h.floats('lat', (), lo=-90, hi=90)
  da = xr.DataArray(v, dims=('x', 'y'), coords={'latitude': ((), lat)} if scalar else {})
  w = weighting.GridAreaWeighting().weights(da)
  h.true('no dims', w.dims == ())
  h.eq('weight', w, 1.)


@SPEC.harness('weighted mean over the sphere', cost=3)
def weighted_mean(h):
  lat, c = axis(h, 3, h.choice('increasing', [True, False]))
  v = h.floats('v', (3, 2))
  da = xr.DataArray(v, dims=('latitude', 'longitude'), coords=coords_noindex(latitude=('latitude', lat)))
  st = aggregation.Aggregator(reduce_dims=['latitude', 'longitude'],
                              weigh_by=[weighting.GridAreaWeighting(return_normalized=False)]
                              ).aggregate_statistics({'S': {'q': da}})
  inc = h.is_true(f_lt(c[0], c[1]))
  a = areas(list(c) if inc else list(c)[::-1])
  a = a if inc else a[::-1]
  vc = cells(v)
  h.eq('sum', st.sum_weighted_statistics['S']['q'], wrapcells(np.array(
      fsum([f_mul(vc[i, j], a[i]) for i in range(3) for j in range(2)]), dtype=object)))
  h.eq('weight', st.sum_weights['S']['q'], wrapcells(np.array(
      fsum([a[i] for i in range(3) for j in range(2)]), dtype=object)))
