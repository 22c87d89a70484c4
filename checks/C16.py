"""C16: interpolation and regridding helpers preserve values and locations."""
from checks.common import *
from weatherbenchX import interpolations as L

SPEC = Spec(
    'C16',
    functions=['interpolations.pad_longitude', 'interpolations.interpolate_to_coords',
               'interpolations.InterpolateToFixedCoords', 'interpolations.InterpolateToReferenceCoords',
               'interpolations.GridToSparseWithAltitudeAdjustment', 'interpolations.CropToBox',
               'interpolations.Subsample', 'interpolations.MultipleInterpolation',
               'interpolations.NeighborhoodThresholdProbabilities', 'interpolations.Interpolation.interpolate'],
    bounds='grids of up to 3 latitudes and 4 longitudes (both latitude orders, 0..360 and -180..180 '
           'longitudes), any field values, up to 2 query points at any position, any elevations, any '
           'crop limits, strides 1 to 3',
    assumptions=['scipy.interpolate.interp1d and interpn are replaced by their definition '
                 '(piecewise (bi)linear and nearest neighbour)'])


def grid(v, lat=(-10.0, 0.0, 20.0), lon=(0.0, 90.0, 180.0, 270.0), order=None, name='u', **lead):
  dims = tuple(lead) + ('latitude', 'longitude')
  d = xr.DataArray(v, dims=dims, coords={**lead, 'latitude': list(lat), 'longitude': list(lon)}, name=name)
  return d.transpose(*order) if order else d


def lin(x0, x1, q, a, b):
  w = f_div(f_sub(q, lift_f(x0)), lift_f(Fraction(x1) - Fraction(x0)))
  return f_add(f_mul(f_sub(ONE, w), a), f_mul(w, b))


def conds(*c): return b_and(*c)


@SPEC.harness('longitude padding')
def h_pad(h):
  v = h.floats('v', (2, 2, 4), nan=True)
  aux = h.floats('aux', (4,))
  lon = h.choice('lon', [(0.0, 90.0, 180.0, 270.0), (-180.0, -90.0, 0.0, 90.0), (0.0, 1.0, 2.0, 359.5),
                          (-90.0, 0.0, 90.0, 180.0), (-179.5, -1.0, 0.0, 179.5), (-360.0, -270.0, -180.0, -90.0)])
  order = h.choice('order', [('time', 'latitude', 'longitude'), ('longitude', 'time', 'latitude')])
  d = grid(v, lat=(0., 1.), lon=lon, order=order, time=[0, 1]).assign_coords(aux=('longitude', aux))
  r = L.pad_longitude(d)
  h.true('labels', list(r.longitude.values) == [lon[-1] - 360, *lon, lon[0] + 360])
  h.true('dims', r.dims == order)
  r = r.transpose('time', 'latitude', 'longitude')
  idx = [3, 0, 1, 2, 3, 0]
  h.eq('values', r, wrapcells(cells(v)[..., idx]))
  h.eq('auxiliary coordinate', r.aux, wrapcells(cells(aux)[idx]))
  h.eq('input untouched', d.transpose('time', 'latitude', 'longitude'), v)
  h.true('input labels', list(d.longitude.values) == list(lon))


def fixed1d(h, lon, wrap, extrap, nan):
  """One symbolic query longitude on all rows."""
  v = h.floats('v', (2, len(lon)), nan=nan)
  lo, hi = (lon[-1] - 360, lon[0] + 360) if wrap else (lon[0] - 100, lon[-1] + 100)
  q = h.floats('q', (1,), lo=lo, hi=hi)
  d = grid(v, lat=(5., -5.), lon=lon)
  r = L.InterpolateToFixedCoords('linear', {'longitude': xr.DataArray(q, dims='point')}, wrap_longitude=wrap,
                                 extrapolate_out_of_bounds=extrap).interpolate_data_array(d)
  r = r.transpose('latitude', 'point')
  x = [lon[-1] - 360, *lon, lon[0] + 360] if wrap else list(lon)
  idx = [len(lon) - 1, *range(len(lon)), 0] if wrap else list(range(len(lon)))
  a, k = cells(v), cells(q)[0]
  inside = b_and(f_le(lift_f(x[0]), k), f_le(k, lift_f(x[-1])))
  for row in range(2):
    g = cells(r)[row, 0]
    for i in range(len(x) - 1):
      p, s = a[row, idx[i]], a[row, idx[i + 1]]
      within = b_and(f_le(lift_f(x[i]), k), f_le(k, lift_f(x[i + 1])))
      if i == 0 and extrap:
        within = f_le(k, lift_f(x[1]))
      if i == len(x) - 2 and extrap:
        within = f_le(lift_f(x[i]), k)
      open_ = b_and(within, b_not(f_eq(k, lift_f(x[i]))), b_not(f_eq(k, lift_f(x[i + 1]))))
      if nan:      # a missing neighbour gives a missing value
        within = open_
      h.eq(f'linear {row} {i}', r[row, 0], wrapcells(np.asarray(lin(x[i], x[i + 1], k, p, s), dtype=object)),
           unless=b_not(within))
      cell = b_and(b_not(p.nan), b_not(s.nan), f_le(lift_f(x[i]), k), f_le(k, lift_f(x[i + 1])))
      if not nan:
        h.true(f'between {row} {i}', b_or(b_not(cell), b_and(f_le(f_min(p, s), g), f_le(g, f_max(p, s)))))
        h.true(f'grid point {row} {i}', b_or(b_not(f_eq(k, lift_f(x[i]))), f_eq(g, p)))
        h.true(f'next grid point {row} {i}', b_or(b_not(f_eq(k, lift_f(x[i + 1]))), f_eq(g, s)))
    if not extrap:
      h.true(f'missing outside {row}', b_or(inside, g.nan))
  h.eq('input untouched', d, v)
  h.eq('labels', r.longitude, q)


for lon, wrap, extrap, nan in (((0., 90., 180., 270.), True, True, False), ((-180., -60., 60.), True, False, False),
                               ((-60., 60., 180.), True, False, False),
                               ((10., 20., 40.), False, True, False), ((10., 20., 40.), False, False, False),
                               ((0., 120., 240.), True, True, True)):
  SPEC.add(f'fixed longitude[{lon} wrap={wrap} extrapolate={extrap} nan={nan}]',
           (lambda *a: lambda h: fixed1d(h, *a))(lon, wrap, extrap, nan))


def bilinear(lat, lon, la, lo, a, i, j):
  return lin(lat[i], lat[i + 1], la, lin(lon[j], lon[j + 1], lo, a[i][j], a[i][j + 1]),
             lin(lon[j], lon[j + 1], lo, a[i + 1][j], a[i + 1][j + 1]))


@SPEC.harness('fixed grid, exact points')
def h_exact(h):
  """Interpolating to grid points gives the grid values."""
  v = h.floats('v', (3, 4))
  desc = h.choice('descending', [False, True])
  method = h.choice('method', ['linear', 'nearest'])
  wrap = h.choice('wrap', [False, True])
  lat = (-10., 0., 20.)[::-1] if desc else (-10., 0., 20.)
  d = grid(v, lat=lat)
  la, lo = [0., -10., 20.], [180., 0., 270.]
  r = L.InterpolateToFixedCoords(method, {'latitude': np.array(la), 'longitude': np.array(lo)},
                                 wrap_longitude=wrap).interpolate({'u': d})['u']
  h.true('labels', list(r.latitude.values) == la and list(r.longitude.values) == lo)
  a = cells(v)
  h.eq('values', r.transpose('latitude', 'longitude'),
       wrapcells(objarr((3, 3), lambda i, j: a[lat.index(la[i]), [0., 90., 180., 270.].index(lo[j])])))


@SPEC.harness('nearest neighbour')
def h_nearest(h):
  v = h.floats('v', (3,))
  q = h.floats('q', (1,), lo=-360, hi=360)
  d = xr.DataArray(v, dims='longitude', coords={'longitude': [0., 120., 240.]})
  r = L.InterpolateToFixedCoords('nearest', {'longitude': xr.DataArray(q, dims='p')}, wrap_longitude=True
                                 ).interpolate_data_array(d)
  a, k = cells(v), cells(q)[0]
  x = [-120., 0., 120., 240., 360.]
  src = [2, 0, 1, 2, 0]
  for i in range(5):
    lo = True if i == 0 else f_lt(lift_f((x[i - 1] + x[i]) / 2), k)
    hi = True if i == 4 else f_lt(k, lift_f((x[i] + x[i + 1]) / 2))
    h.eq(f'cell {i}', r, wrapcells(np.asarray([a[src[i]]], dtype=object)), unless=b_not(b_and(lo, hi)))


def points(h, dims, wrap, desc, lat=(0., 10., 30.), lon=(0., 120., 240.)):
  """Reference with scattered stations: bilinear in the station's cell."""
  v = h.floats('v', (2, 3, 3))
  i, j = h.pick_int('row', 0, 1), h.pick_int('column', -1 if wrap else 0, 2 if wrap else 1)
  X = [lon[-1] - 360, *lon, lon[0] + 360]
  src = [2, 0, 1, 2, 0]
  la = h.floats('lat', (1,), lo=lat[i], hi=lat[i + 1])
  lo = h.floats('lon', (1,), lo=X[j + 1], hi=X[j + 2])
  ref = xr.DataArray(np.zeros(1), dims='station', name='u',
                     coords={'latitude': ('station', la), 'longitude': ('station', lo), 'elevation': ('station', [3.0])})
  d = grid(v if not desc else v[:, ::-1], lat=lat if not desc else lat[::-1], lon=lon, level=[500, 700])
  ip = L.InterpolateToReferenceCoords('linear', dims=dims, wrap_longitude=wrap)
  r = ip.interpolate({'u': d}, {'u': ref})['u'].transpose('level', 'station')
  a = cells(v)
  k, m = cells(la)[0], cells(lo)[0]
  exp = []
  for lev in range(2):
    sub = [[a[lev, r_, src[c_ + 1]] for c_ in range(-1, 4)] for r_ in range(3)]
    exp.append(bilinear(lat, X, k, m, sub, i, j + 1))
  h.eq('bilinear', r, wrapcells(np.asarray(exp, dtype=object).reshape(2, 1)))
  h.eq('station latitude', r.latitude, la)
  h.eq('station longitude', r.longitude, lo)
  corners = [a[0, i + x, src[j + 1 + y]] for x in (0, 1) for y in (0, 1)]
  g = cells(r)[0, 0]
  lo_, hi_ = corners[0], corners[0]
  for c in corners[1:]:
    lo_, hi_ = f_min(lo_, c), f_max(hi_, c)
  h.true('between', b_and(f_le(lo_, g), f_le(g, hi_)))


for dims, wrap, desc in ((None, False, False), (('latitude', 'longitude'), True, True), (None, True, False)):
  SPEC.add(f'stations[{dims} wrap={wrap} descending={desc}]',
           (lambda *a: lambda h: points(h, *a))(dims, wrap, desc), cost=3)


@SPEC.harness('stations out of bounds')
def h_oob(h):
  v = h.floats('v', (3, 3))
  extrap = h.choice('extrapolate', [False, True])
  la, lo = h.floats('lat', (1,), lo=0, hi=40), h.floats('lon', (1,), lo=0, hi=40)
  ref = xr.DataArray(np.zeros(1), dims='s', coords={'latitude': ('s', la), 'longitude': ('s', lo)})
  d = grid(v, lat=(10., 20., 30.), lon=(10., 20., 30.))
  r = L.InterpolateToReferenceCoords('linear', extrapolate_out_of_bounds=extrap).interpolate_data_array(d, ref)
  k, m, g = cells(la)[0], cells(lo)[0], cells(r)[0]
  inb = b_and(*[b_and(f_le(lift_f(10), x), f_le(x, lift_f(30))) for x in (k, m)])
  if extrap:
    a = cells(v)
    h.true('never missing', b_not(g.nan))
    far = b_and(f_le(lift_f(20), k), f_le(lift_f(20), m))
    h.eq('outer cell continued', r, wrapcells(np.asarray([bilinear([10, 20, 30], [10, 20, 30], k, m, a, 1, 1)], dtype=object)),
         unless=b_not(far))
  else:
    h.true('missing exactly outside', b_or(b_and(inb, b_not(g.nan)), b_and(b_not(inb), g.nan)))


@SPEC.harness('dimensions to interpolate')
def h_dims(h):
  """Only asked dimensions; inferred: those the reference has coordinates of."""
  v = h.floats('v', (2, 3, 3))
  q = h.floats('q', (2,), lo=0, hi=20)
  h.assume(f_lt(cells(q)[0], cells(q)[1]))
  case = h.choice('case', ['inferred', 'explicit', 'all'])
  d = grid(v, lat=(0., 10., 20.), lon=(0., 10., 20.), time=[0, 6])
  refc = {'latitude': xr.DataArray(q, dims='s'), 'other': ('s', [1., 2.])}
  if case == 'all':
    refc['longitude'] = ('s', [5., 10.])
  ref = xr.DataArray(np.zeros(2), dims='s', coords=refc)
  if case == 'explicit':   # a gridded reference whose longitudes are not used
    ref = xr.DataArray(np.zeros((2, 2)), dims=('latitude', 'longitude'),
                       coords={'latitude': q, 'longitude': [5., 10.]})
  dims = ['latitude'] if case == 'explicit' else None
  r = L.InterpolateToReferenceCoords('linear', dims=dims).interpolate_data_array(d, ref)
  a, k = cells(v), cells(q)
  def at(t, s, j):
    lo = f_le(k[s], lift_f(10))
    return f_ite(lo, lin(0, 10, k[s], a[t, 0, j], a[t, 1, j]), lin(10, 20, k[s], a[t, 1, j], a[t, 2, j]))
  if case == 'explicit':
    r = r.rename(latitude='s')
  if case == 'all':
    h.true('dims', set(r.dims) == {'time', 's'})
    exp = objarr((2, 2), lambda t, s: lin(0, 10, lift_f(5), at(t, 0, 0), at(t, 0, 1)) if s == 0 else at(t, 1, 1))
    h.eq('values', r.transpose('time', 's'), wrapcells(exp))
  else:
    h.true('dims', set(r.dims) == {'time', 's', 'longitude'})
    h.true('longitudes kept', list(r.longitude.values) == [0., 10., 20.])
    h.eq('values', r.transpose('time', 's', 'longitude'), wrapcells(objarr((2, 2, 3), at)))


@SPEC.harness('clipped reference')
def h_clip(h):
  """Reference points beyond the data are dropped in the given dimensions."""
  v = h.floats('v', (3, 2))
  q = h.floats('q', (2,), lo=-10, hi=40)
  h.assume(f_lt(cells(q)[0], cells(q)[1]))
  clip = h.choice('clip', [None, ['latitude']])
  desc = h.choice('descending', [False, True])
  d = grid(v, lat=(0., 10., 30.), lon=(0., 1.))
  a, k = cells(v), cells(q)
  if desc:
    k = k[::-1]
    q = wrapcells(list(k))
  ref = xr.DataArray(np.zeros((2, 2)), dims=('latitude', 'longitude'), coords={'latitude': q, 'longitude': [0., 1.]})
  ins = [b_and(f_le(lift_f(0), x), f_le(x, lift_f(30))) for x in k]
  keep = [s for s in range(2) if clip is None or h.is_true(ins[s])]
  if not keep:
    return
  r = L.InterpolateToReferenceCoords('linear', dims=['latitude'], clip_reference_coords=clip,
                                     extrapolate_out_of_bounds=False).interpolate_data_array(d, ref)
  h.true('points kept', r.sizes['latitude'] == len(keep))
  def at(s, j):
    e = f_ite(f_le(k[s], lift_f(10)), lin(0, 10, k[s], a[0, j], a[1, j]), lin(10, 30, k[s], a[1, j], a[2, j]))
    return f_ite(ins[s], e, NAN)
  h.eq('labels', r.latitude, wrapcells([k[s] for s in keep]))
  h.eq('values', r.transpose('latitude', 'longitude'), wrapcells(objarr((len(keep), 2), lambda s, j: at(keep[s], j))))


@SPEC.harness('empty reference')
def h_empty(h):
  """Nothing to interpolate to: empty, keeping the other dimensions."""
  v = h.floats('v', (2, 3, 3))
  adj = h.choice('adjust', [False, True])
  name = h.choice('name', ['2m_temperature', '10m_wind_speed', 'u'])
  d = grid(v, lat=(0., 10., 20.), lon=(0., 10., 20.), name=name, time=[0, 6])
  ref = xr.DataArray(np.zeros(0), dims='s', name=name, coords={
      'latitude': ('s', []), 'longitude': ('s', []), 'elevation': ('s', [])})
  if adj:
    ip = L.GridToSparseWithAltitudeAdjustment('linear', d.isel(time=0, drop=True))
  else:
    ip = L.InterpolateToReferenceCoords('linear')
  r = ip.interpolate_data_array(d, ref)
  h.true('empty', dict(r.sizes) == {'time': 2, 's': 0})
  h.true('labels', list(r.time.values) == [0, 6])
  h.true('reference untouched', ref.dims == ('s',))


@SPEC.harness('crop')
def h_crop(h):
  v = h.floats('v', (3, 4), nan=True)
  lim = h.ints('lim', (4,), -12, 25)
  desc = h.choice('descending', [False, True])
  lat = (-10., 0., 20.)[::-1] if desc else (-10., 0., 20.)
  lon = h.choice('longitudes', [(0., 6., 12., 18.), (6., 12., 0., 18.)])
  d = grid(v, lat=lat, lon=lon)
  a0, a1, o0, o1 = [lim[i] for i in range(4)]
  c = cells(lim)
  h.assume(f_le(lift_f(c[0]), lift_f(c[1])))
  h.assume(f_le(lift_f(c[2]), lift_f(c[3])))
  r = L.CropToBox(a0, a1, o0, o1).interpolate_data_array(d, None)
  inside = lambda x, p, q: h.is_true(b_and(f_le(lift_f(p), lift_f(x)), f_le(lift_f(x), lift_f(q))))
  rows = sorted(x for x in lat if inside(x, c[0], c[1]))
  cols = sorted(x for x in lon if inside(x, c[2], c[3]))
  h.true('latitudes', list(r.latitude.values) == rows)
  h.true('longitudes', list(r.longitude.values) == cols)
  if r.shape != (len(rows), len(cols)) or not r.size:
    return
  a = cells(v)
  h.eq('values', r, wrapcells(objarr(r.shape, lambda i, j: a[lat.index(rows[i]), lon.index(cols[j])])))
  h.eq('input untouched', d, v)


@SPEC.harness('crop limits must be ordered')
def h_crop_bad(h):
  lim = h.ints('lim', (4,), -100, 100)
  c = [lift_f(x) for x in cells(lim)]
  args = [lim[i] for i in range(4)]
  if h.is_true(b_and(f_le(c[0], c[1]), f_le(c[2], c[3]))):
    L.CropToBox(*args)
  else:
    with h.raises('rejected', ValueError):
      L.CropToBox(*args)


@SPEC.harness('subsample')
def h_sub(h):
  v = h.floats('v', (5, 4), nan=True)
  dims = h.choice('dims', [['latitude'], ['longitude', 'latitude'], ['level'], ['longitude', 'level'], []])
  n = h.pick_int('stride', -1, 5)
  d = grid(v, lat=(2., 1., 0., -1., -2.))
  if n < 1:
    with h.raises('stride', ValueError):
      L.Subsample(dims, n)
    return
  r = L.Subsample(dims, n).interpolate({'u': d})['u']
  rows = [i for i in range(5) if i % n == 0 or 'latitude' not in dims]
  cols = [i for i in range(4) if i % n == 0 or 'longitude' not in dims]
  h.true('latitudes', list(r.latitude.values) == [d.latitude.values[i] for i in rows])
  h.true('longitudes', list(r.longitude.values) == [d.longitude.values[i] for i in cols])
  h.eq('values', r, wrapcells(cells(v)[np.ix_(rows, cols)]))


class Affine(L.Interpolation):
  """Records its reference; not commutative."""

  def __init__(self, m, log):
    self.m, self.log = m, log

  def interpolate_data_array(self, da, reference=None):
    self.log.append((self.m, da.name, None if reference is None else reference.attrs['id']))
    return da * self.m + 1


@SPEC.harness('list of interpolations in order')
def h_multi(h):
  v = h.floats('v', (2,), nan=True)
  n = h.pick_int('n', 0, 3)
  withref = h.choice('reference', [False, True])
  log = []
  mk = lambda x, i: xr.DataArray(x, dims='x', name=i, attrs={'id': i})
  ms = [2, 3, 5][:n]
  m = L.MultipleInterpolation([Affine(k, log) for k in ms])
  ds = {'a': mk(v, 'a'), 'b': mk(v + 1, 'b')}
  r = m.interpolate(ds, {k: mk(np.zeros(2), 'r' + k) for k in ds}) if withref else m.interpolate(ds)
  h.true('variables', list(r) == ['a', 'b'])
  for i, k in enumerate(ds):
    e = [f_add(x, lift_f(i)) for x in cells(v)]
    for f in ms:
      e = [f_add(f_mul(x, lift_f(f)), ONE) for x in e]
    h.eq(k, r[k], wrapcells(e))
  h.true('references', log == [(f, k, ('r' + k) if withref else None) for k in ds for f in ms])


@SPEC.harness('crop then subsample then interpolate')
def h_chain(h):
  v = h.floats('v', (4, 4))
  q = h.floats('q', (1,), lo=0, hi=20)
  d = grid(v, lat=(20., 10., 0., -10.), lon=(0., 10., 20., 30.))
  m = L.MultipleInterpolation([L.CropToBox(0., 20., 0., 20.), L.Subsample(['latitude'], 2),
                               L.InterpolateToFixedCoords('linear', {'latitude': xr.DataArray(q, dims='p')})])
  r = m.interpolate({'u': d})['u'].transpose('p', 'longitude')
  a, k = cells(v), cells(q)[0]
  h.eq('values', r, wrapcells(objarr((1, 3), lambda _, j: lin(0, 20, k, a[2, j], a[0, j]))))


def altitude(h, name, wrap, limit):
  """The stated lapse rate and wind factor for every altitude difference."""
  v = h.floats('v', (2, 2, 3))
  ge = h.floats('grid_elevation', (2, 3), lo=-500, hi=9000)
  el = h.floats('elevation', (2,), lo=-500, hi=9000, nan=True)
  d = grid(v, lat=(0., 10.), lon=(0., 120., 240.), name=name, time=[0, 1])
  g = grid(ge, lat=(0., 10.), lon=(0., 120., 240.), name='z')
  lon = [120., -120.] if wrap else [120., 180.]
  ref = xr.DataArray(np.zeros(2), dims='s', name=name, coords={
      'latitude': ('s', [10., 5.]), 'longitude': ('s', lon), 'elevation': ('s', el)})
  kw = {} if limit is None else {'max_alititude_diff_in_m': limit}
  ip = L.GridToSparseWithAltitudeAdjustment('linear', g, wrap_longitude=wrap, **kw)
  r = ip.interpolate({name: d}, {name: ref})[name].transpose('time', 's')
  a, z, e = cells(v), cells(ge), cells(el)
  half = lambda x, y: f_div(f_add(x, y), lift_f(2))
  def at(f, s):
    if s == 0:
      return f[1][1]
    return half(f[0][2], f[1][2]) if wrap else half(half(f[0][1], f[1][1]), half(f[0][2], f[1][2]))
  lim = lift_f(1500 if limit is None else limit)
  def exp(t, s):
    base = at(a[t], s)
    dz = f_sub(e[s], at(z, s))
    big = b_or(dz.nan, f_le(lim, dz), f_le(dz, f_sub(ZERO, lim)))
    dz = f_ite(big, ZERO, dz)
    if name == '2m_temperature':
      return f_add(base, f_mul(dz, lift_f(Fraction(-65, 10000))))
    if name == '10m_wind_speed':
      k = f_ite(f_lt(dz, lift_f(100)), ONE,
                f_ite(f_lt(dz, lift_f(1100)), f_add(ONE, f_mul(lift_f(Fraction(2, 1000)), f_sub(dz, lift_f(100)))), lift_f(3)))
      return f_mul(base, k)
    return base
  h.eq('adjusted', r, wrapcells(objarr((2, 2), exp)))
  h.eq('input values', d, v)
  h.true('input coordinates', set(d.coords) == {'time', 'latitude', 'longitude'})
  h.eq('elevations untouched', g, ge)
  h.true('reference untouched', set(ref.coords) == {'latitude', 'longitude', 'elevation'})
  h.eq('reference values', ref, np.zeros(2))


for name, wrap, limit in (('2m_temperature', False, None), ('10m_wind_speed', False, None), ('geopotential', False, None),
                          ('2m_temperature', True, 300), ('10m_wind_speed', True, 2000)):
  SPEC.add(f'altitude[{name} wrap={wrap} limit={limit}]', (lambda *a: lambda h: altitude(h, *a))(name, wrap, limit), cost=2)


@SPEC.harness('neighbourhood probabilities')
def h_prob(h):
  v = h.floats('v', (3, 4), nan=True)
  wrap = h.choice('wrap', [False, True])
  d = grid(v, lon=(0., 90., 180., 270.))
  th = [0.0, 1.5]
  r = L.NeighborhoodThresholdProbabilities([1, 3], th, wrap_longitude=wrap).interpolate_data_array(d)
  h.true('sizes', list(r.smoothing_neighborhood.values) == [1, 3] and list(r.threshold_value.values) == th)
  a = cells(v)
  def exp(n, t, i, j):
    k = n // 2
    if not (k <= i < 3 - k and (wrap or k <= j < 4 - k)):
      return ZERO
    xs = [a[i + u, (j + w) % 4] for u in range(-k, k + 1) for w in range(-k, k + 1)]
    return f_div(fsum(f_ite(x.nan, NAN, fb(f_lt(lift_f(th[t]), x))) for x in xs), lift_f(n * n))
  r = r.transpose('smoothing_neighborhood', 'threshold_value', 'latitude', 'longitude')
  h.eq('probabilities', r, wrapcells(objarr((2, 2, 3, 4), lambda s, t, i, j: exp([1, 3][s], t, i, j))))
