"""C18: loaded predictions, targets and climatologies match the asked times."""
import datetime
from unittest import mock
from checks.common import *
from checks.C17 import fcells, minutes
from weatherbenchX import interpolations
from weatherbenchX.data_loaders import base, xarray_loaders as X

SPEC = Spec(
    'C18',
    functions=['xarray_loaders._rename_dataset', 'xarray_loaders.XarrayDataLoader',
               'xarray_loaders.PredictionsFromXarray', 'xarray_loaders.TargetsFromXarray',
               'xarray_loaders.PersistenceFromXarray', 'xarray_loaders.ClimatologyFromXarray',
               'xarray_loaders.ProbabilisticClimatologyFromXarray',
               'data_loaders.base.DataLoader.load_chunk', 'data_loaders.base.add_nan_mask_to_data'],
    bounds='stores of up to 4 initialisations x 4 leads or 8 valid times with any values; 1 or 2 '
           'initialisation and lead times at any hour or minute (stored or not); climatologies over every hour '
           'from 2019-12 to 2021-03 (leap year, both year ends); all combinations of masking, '
           'processing, interpolation, renaming and selection options',
    assumptions=['files are not read: xarray.open_zarr/open_dataset are replaced by a stand-in that '
                 'returns the dataset'])
HOUR = 'datetime64[h]'
EPOCH = datetime.datetime(1970, 1, 1)


def hr(*a): return int((datetime.datetime(*a) - EPOCH).total_seconds() // 3600)


def asked(h, name, n, lo, hi, step=1, kind='datetime64', distinct=True):
  """n symbolic times (multiples of step hours) and their hour terms."""
  v = h.ints(name, (n,), lo, hi)
  k = [f_mul(lift_f(step), x) for x in fcells(v)]
  if distinct:
    for i in range(n):
      for j in range(i):
        h.assume(f_lt(k[j], k[i]))
  return (v * step).astype(f'{kind}[h]').astype(f'{kind}[ns]'), k


def pick(keys, vals, k):
  """(found, value) of hour term k in the concrete table."""
  some, out = False, NAN
  for a, b in zip(keys, vals):
    e = f_eq(lift_f(a), k)
    some, out = b_or(some, e), f_ite(e, b, out)
  return some, out


def labels(h, label, da, dim, want):
  got = [f_div(x, lift_f(60)) for x in fcells(minutes(da[dim].data))]
  h.true(label + ' length', len(got) == len(want))
  h.true(label, b_and(*[f_eq(x, y) for x, y in zip(got, want)]))


def predictions(h, renamed):
  base_ = hr(2020, 2, 28)
  I = [base_ + 12 * i for i in range(4)]
  L = [0, 6, 12, 24]
  v = h.floats('v', (4, 4), nan=True)
  names = ('time', 'prediction_timedelta') if renamed else ('init_time', 'lead_time')
  ds = xr.Dataset({'u': (names, v), 'w': (names, v * 2)}, coords={
      names[0]: np.array(I, HOUR).astype('datetime64[ns]'), names[1]: np.array(L, 'timedelta64[h]').astype('timedelta64[ns]')})
  lo = X.PredictionsFromXarray(ds=ds, rename_dimensions='ecmwf' if renamed else None)
  Q, q = asked(h, 'init', 2, base_ // 12, base_ // 12 + 4, 12)
  kind = h.choice('leads', ['exact', 'slice', 'all'])
  a = cells(v)
  if kind == 'exact':
    D, d = asked(h, 'lead', 2, 0, 4, 6, 'timedelta64')
    ok = b_and(*[pick(I, [ONE] * 4, x)[0] for x in q], *[pick(L, [ONE] * 4, x)[0] for x in d])
  else:
    lo_, hi_ = h.choice('limits', [(0, 12), (6, 24), (3, 13), (None, None)])
    if kind == 'slice' and lo_ is None:
      return
    if kind == 'all' and lo_ is not None:
      return
    D = None if kind == 'all' else slice(np.timedelta64(lo_, 'h'), np.timedelta64(hi_, 'h'))
    d = [lift_f(x) for x in L if kind == 'all' or lo_ <= x <= hi_]
    ok = b_and(*[pick(I, [ONE] * 4, x)[0] for x in q])
  if not h.is_true(ok):
    with h.raises('time not stored', KeyError):
      lo.load_chunk(Q, D)
    return
  r = lo.load_chunk(Q, D)
  h.true('variables', set(r) == {'u', 'w'})
  exp = objarr((2, len(d)), lambda i, j: pick(I, [pick(L, a[k], d[j])[1] for k in range(4)], q[i])[1])
  h.eq('values', r['u'].transpose('init_time', 'lead_time'), wrapcells(exp))
  h.eq('second variable', r['w'].transpose('init_time', 'lead_time'),
       wrapcells(objarr(exp.shape, lambda i, j: f_mul(lift_f(2), exp[i, j]))))
  labels(h, 'init', r['u'], 'init_time', q)
  labels(h, 'lead', r['u'], 'lead_time', d)


for ren in (True, False):
  SPEC.add(f'predictions[renamed={ren}]', (lambda r: lambda h: predictions(h, r))(ren), cost=2)


def valid_store(h, n, step, t0, dim='time'):
  T = [t0 + step * i for i in range(n)]
  v = h.floats('v', (n, 2), nan=True)
  ds = xr.Dataset({'u': ((dim, 'latitude'), v)}, coords={
      dim: np.array(T, HOUR).astype('datetime64[ns]'), 'latitude': [0., 1.]})
  return T, cells(v), ds


@SPEC.harness('targets', cost=2)
def h_targets(h):
  base_ = hr(2020, 2, 28)
  T, a, ds = valid_store(h, 8, 6, base_)
  lo = X.TargetsFromXarray(ds=ds)
  Q, q = asked(h, 'init', 2, base_ // 6, base_ // 6 + 5, 6)
  D, d = asked(h, 'lead', 2, 0, 4, 6, 'timedelta64')
  val = [[pick(T, [ONE] * 8, f_add(x, y))[0] for y in d] for x in q]
  if not h.is_true(b_and(*sum(val, []))):
    with h.raises('time not stored', KeyError):
      lo.load_chunk(Q, D)
    return
  r = lo.load_chunk(Q, D)['u'].transpose('init_time', 'lead_time', 'latitude')
  h.eq('values', r, wrapcells(objarr((2, 2, 2), lambda i, j, k: pick(T, a[:, k], f_add(q[i], d[j]))[1])))
  labels(h, 'init', r, 'init_time', q)
  labels(h, 'lead', r, 'lead_time', d)
  got = [f_div(x, lift_f(60)) for x in fcells(minutes(r.valid_time.transpose('init_time', 'lead_time').data))]
  h.true('valid', b_and(*[f_eq(got[2 * i + j], f_add(q[i], d[j])) for i in range(2) for j in range(2)]))


@SPEC.harness('targets without lead times')
def h_targets_none(h):
  base_ = hr(2020, 2, 28)
  T, a, ds = valid_store(h, 6, 6, base_)
  lo = X.TargetsFromXarray(ds=ds)
  Q, q = asked(h, 'init', 2, base_ // 6, base_ // 6 + 5, 6)
  r = lo.load_chunk(Q, None)['u'].transpose('valid_time', 'latitude')
  h.eq('values', r, wrapcells(objarr((2, 2), lambda i, k: pick(T, a[:, k], q[i])[1])))
  labels(h, 'valid', r, 'valid_time', q)
  for cls in (X.TargetsFromXarray, X.ClimatologyFromXarray):
    with h.raises(f'slice {cls.__name__}', ValueError):
      cls(ds=ds).load_chunk(Q, slice(np.timedelta64(0, 'h'), np.timedelta64(6, 'h')))
  for cls, kw in ((X.PersistenceFromXarray, {}), (X.ProbabilisticClimatologyFromXarray, dict(start_year=2019, end_year=2019))):
    for D in (None, slice(np.timedelta64(0, 'h'), np.timedelta64(6, 'h'))):
      with h.raises(f'{cls.__name__} {D is None}', ValueError):
        cls(ds=ds, **kw).load_chunk(Q, D)


@SPEC.harness('persistence')
def h_persistence(h):
  base_ = hr(2020, 2, 28)
  T, a, ds = valid_store(h, 6, 6, base_)
  lo = X.PersistenceFromXarray(ds=ds)
  Q, q = asked(h, 'init', 2, base_ // 6, base_ // 6 + 6, 6)
  D, d = asked(h, 'lead', 3, 0, 100, 1, 'timedelta64')
  if not h.is_true(b_and(*[pick(T, [ONE] * 6, x)[0] for x in q])):
    with h.raises('time not stored', KeyError):
      lo.load_chunk(Q, D)
    return
  r = lo.load_chunk(Q, D)['u'].transpose('init_time', 'lead_time', 'latitude')
  h.eq('values', r, wrapcells(objarr((2, 3, 2), lambda i, j, k: pick(T, a[:, k], q[i])[1])))
  labels(h, 'init', r, 'init_time', q)
  labels(h, 'lead', r, 'lead_time', d)


@SPEC.harness('climatology', cost=2)
def h_clim(h):
  """Entry of the day of year and hour of initialisation plus lead."""
  days = h.choice('days', ['leap', 'end'])
  coords = h.choice('coords', [('dayofyear', 'hour'), ('hour', 'dayofyear'), ('hour',), ('month', 'hour')])
  lead = h.choice('lead', [True, False])
  t0, n = {'leap': (hr(2020, 2, 28), 3), 'end': (hr(2020, 12, 30), 4)}[days]
  doys = sorted({(EPOCH + datetime.timedelta(hours=t)).timetuple().tm_yday for t in range(t0, t0 + 24 * n, 6)} | {59, 60, 61})
  size = {'dayofyear': doys, 'hour': [0, 6, 12, 18], 'month': list(range(1, 13))}
  tag = {'dayofyear': 100, 'hour': 1, 'month': 100}
  val = np.zeros([len(size[c]) for c in coords])
  for ax, c in enumerate(coords):
    val = val + tag[c] * np.array(size[c], float).reshape([-1 if i == ax else 1 for i in range(len(coords))])
  s = h.floats('s', ())
  ds = xr.Dataset({'u': (coords, val), 'w': (coords, val + 0.5)}, coords={c: size[c] for c in coords})
  lo = X.ClimatologyFromXarray(ds=ds, climatology_time_coords=coords)
  if lead:
    Q, q = asked(h, 'init', 1, t0 // 6, t0 // 6 + 4 * n - 9, 6)
    D, d = asked(h, 'lead time', 2, 0, 8, 6, 'timedelta64')
    vt = [f_add(q[0], x) for x in d]
    r = lo.load_chunk(Q, D)['u'].transpose('init_time', 'lead_time')
    labels(h, 'lead', r, 'lead_time', d)
    sh = (1, 2)
  else:
    Q, q = asked(h, 'init', 2, t0 // 6, t0 // 6 + 4 * n - 1, 6)
    vt, sh = q, (2,)
    r = lo.load_chunk(Q, None)['u']
  labels(h, 'init', r, 'init_time', q)
  def exp(k):
    out = NAN
    for t in range(t0, t0 + 24 * n, 6):
      p = (EPOCH + datetime.timedelta(hours=t)).timetuple()
      x = sum({'dayofyear': 100 * p.tm_yday, 'hour': p.tm_hour, 'month': 100 * p.tm_mon}[c] for c in coords)
      out = f_ite(f_eq(k, lift_f(t)), lift_f(x), out)
    return out
  h.eq('entry', r, wrapcells(np.asarray([exp(k) for k in vt], dtype=object).reshape(sh)))


def prob_clim(h, window, years, dim):
  """Member y: the day of year and hour of the valid time, in year y."""
  t0, n = window
  steps = range(t0, t0 + 24 * n, 12)
  def of(t, y):
    p = (EPOCH + datetime.timedelta(hours=t)).timetuple()
    return hr(y, 1, 1) + 24 * (p.tm_yday - 1) + p.tm_hour
  ys = list(range(years[0], years[1] + 1))
  T = sorted({of(t, y) for t in steps for y in ys} | {x for x in steps})
  v = h.floats('v', (len(T),))
  ds = xr.Dataset({'u': (('time',), v)}, coords={'time': np.array(T, HOUR).astype('datetime64[ns]')})
  kw = {} if dim == 'number' else {'ensemble_dim': dim}
  lo = X.ProbabilisticClimatologyFromXarray(ds=ds, start_year=years[0], end_year=years[1], **kw)
  Q, q = asked(h, 'init', 1, t0 // 12, t0 // 12 + 2 * n - 3, 12)
  D, d = asked(h, 'lead', 2, 0, 2, 12, 'timedelta64')
  r = lo.load_chunk(Q, D)['u'].transpose('init_time', 'lead_time', dim)
  a = cells(v)
  def exp(j, y):
    out, k = NAN, f_add(q[0], d[j])
    for t in steps:
      out = f_ite(f_eq(k, lift_f(t)), a[T.index(of(t, y))], out)
    return out
  h.eq('members', r, wrapcells(objarr((1, 2, len(ys)), lambda _, j, y: exp(j, ys[y]))))
  h.true('member labels', list(r[dim].values) == list(range(len(ys))))
  labels(h, 'init', r, 'init_time', q)
  labels(h, 'lead', r, 'lead_time', d)


for w, ys, dim in (((hr(2020, 2, 27), 5), (2018, 2021), 'number'), ((hr(2020, 12, 29), 5), (2018, 2020), 'member'),
                   ((hr(2021, 2, 27), 4), (2019, 2020), 'number'), ((hr(2021, 12, 30), 4), (2020, 2020), 'number')):
  SPEC.add(f'probabilistic climatology[{w[0]} {ys}]', (lambda *a: lambda h: prob_clim(h, *a))(w, ys, dim), cost=2)


@SPEC.harness('climatology between whole hours')
def h_minutes(h):
  """Minutes of the valid time don't change its day of year and hour."""
  t0 = hr(2020, 12, 30) * 60
  q = h.ints('init', (1,), t0, t0 + 60 * 47, dtype='datetime64[m]')
  d = h.ints('lead', (1,), 0, 60 * 47, dtype='timedelta64[m]')
  doys = [1, 2, 3, 364, 365, 366]
  size = {'dayofyear': doys, 'hour': list(range(24))}
  val = 100. * np.array(doys)[:, None] + np.arange(24)
  ds = xr.Dataset({'u': (('dayofyear', 'hour'), val)}, coords=size)
  r = X.ClimatologyFromXarray(ds=ds).load_chunk(q.astype('datetime64[ns]'), d.astype('timedelta64[ns]'))['u']
  k = f_add(fcells(q)[0], fcells(d)[0])
  out = NAN
  for t in range(96):
    p = (EPOCH + datetime.timedelta(minutes=t0 + 60 * t)).timetuple()
    out = f_ite(f_le(lift_f(t0 + 60 * t), k), lift_f(100 * p.tm_yday + p.tm_hour), out)
  h.eq('entry', r, wrapcells(np.asarray([[out]], dtype=object)))


@SPEC.harness('probabilistic climatology between whole hours')
def h_prob_minutes(h):
  t0 = hr(2020, 12, 31, 20) * 60
  n = 10
  q = h.ints('init', (1,), t0, t0 + 60 * (n // 2) - 1, dtype='datetime64[m]')
  d = h.ints('lead', (1,), 0, 60 * (n // 2), dtype='timedelta64[m]')
  years = h.choice('years', [(2019, 2019), (2018, 2020)])
  ys = list(range(years[0], years[1] + 1))
  T = sorted({t for y in range(2018, 2022) for t in [*range(hr(y, 12, 31), hr(y + 1, 1, 1)), *range(hr(y + 1, 1, 1), hr(y + 1, 1, 2)), *range(hr(y, 1, 1), hr(y, 1, 2))]})
  ds = xr.Dataset({'u': (('time',), np.array(T, float))}, coords={'time': np.array(T, HOUR).astype('datetime64[ns]')})
  r = X.ProbabilisticClimatologyFromXarray(ds=ds, start_year=years[0], end_year=years[1]).load_chunk(
      q.astype('datetime64[ns]'), d.astype('timedelta64[ns]'))['u'].transpose('init_time', 'lead_time', 'number')
  k = f_add(fcells(q)[0], fcells(d)[0])
  def exp(y):
    out = NAN
    for t in range(n):
      p = (EPOCH + datetime.timedelta(minutes=t0 + 60 * t)).timetuple()
      out = f_ite(f_le(lift_f(t0 + 60 * t), k), lift_f(hr(y, 1, 1) + 24 * (p.tm_yday - 1) + p.tm_hour), out)
    return out
  h.eq('entry', r, wrapcells(np.asarray([[[exp(y) for y in ys]]], dtype=object)))


def between(h, kind):
  """A time that is not stored is never served by its neighbour."""
  base_ = hr(2020, 2, 28)
  step = h.choice('step', [1, 6])
  if kind == 'predictions':
    I, Ls = [base_ + step * i for i in range(3)], [0, step, 2 * step]
    v = h.floats('v', (3, 3))
    ds = xr.Dataset({'u': (('init_time', 'lead_time'), v)}, coords={
        'init_time': np.array(I, HOUR).astype('datetime64[ns]'),
        'lead_time': np.array(Ls, 'timedelta64[h]').astype('timedelta64[ns]')})
    lo = X.PredictionsFromXarray(ds=ds, rename_dimensions=None)
  else:
    I, a, ds = valid_store(h, 3, step, base_)
    lo = (X.TargetsFromXarray if kind == 'targets' else X.PersistenceFromXarray)(ds=ds)
  q = h.ints('init', (1,), 60 * base_, 60 * (base_ + 2 * step), dtype='datetime64[m]')
  d = h.ints('lead', (1,), 0, 60 * step, dtype='timedelta64[m]')
  k, e = fcells(q)[0], fcells(d)[0]
  stored = lambda x, n: b_or(*[f_eq(x, lift_f(60 * i)) for i in n])
  if kind == 'predictions':
    ok = b_and(stored(k, I), stored(e, Ls))
  elif kind == 'targets':
    ok = stored(f_add(k, e), I)
  else:
    ok = stored(k, I)
  if h.is_true(ok):
    lo.load_chunk(q.astype('datetime64[ns]'), d.astype('timedelta64[ns]'))
    return
  with h.raises('time not stored', KeyError):
    lo.load_chunk(q.astype('datetime64[ns]'), d.astype('timedelta64[ns]'))


for kind in ('predictions', 'targets', 'persistence'):
  SPEC.add(f'times between the stored ones[{kind}]', (lambda k: lambda h: between(h, k))(kind))


# -- options -----------------------------------------------------------------


class Add(interpolations.Interpolation):

  def __init__(self, log):
    self.log = log

  def interpolate_data_array(self, da, reference=None):
    self.log.append(None if reference is None else reference.attrs.get('id'))
    return da + (3 if reference is None else reference)


@SPEC.harness('computation steps in order')
def h_steps(h):
  """Processing, interpolation, then mask and value coordinates."""
  v = h.floats('v', (2, 2), nan=True)
  ref = h.floats('ref', (2,), nan=True)
  T = np.array(['2020-01-01T00', '2020-01-01T12'], 'datetime64[ns]')
  ds = xr.Dataset({'u': (('time', 'x'), v)}, coords={'time': T, 'x': [0, 1]})
  process, interp, mask, vals, compute, usesref = (h.choice(k, [False, True]) for k in
                                                  ('process', 'interpolate', 'mask', 'values', 'compute', 'reference'))
  log = []
  kw = {}
  if process:
    kw['process_chunk_fn'] = lambda c: {k: x * 2 for k, x in c.items()}
  if interp:
    kw['interpolation'] = Add(log)
  if vals:
    kw['add_values_to_coords'] = True
  lo = X.TargetsFromXarray(ds=ds, add_nan_mask=mask, compute=compute, **kw)
  R = {'u': xr.DataArray(ref, dims='x', attrs={'id': 'R'})} if usesref else None
  r = lo.load_chunk(T, np.array([0], 'timedelta64[ns]'), R)['u'].isel(lead_time=0)
  def exp(i, j):
    e = cells(v)[i, j]
    if process:
      e = f_mul(e, lift_f(2))
    if interp:
      e = f_add(e, cells(ref)[j] if usesref else lift_f(3))
    return e
  e = objarr((2, 2), exp)
  h.eq('values', r.transpose('init_time', 'x'), wrapcells(e))
  h.true('mask present', ('mask' in r.coords) == mask)
  if mask and 'mask' in r.coords:
    h.eq('mask', r.mask.transpose('init_time', 'x'), wrapcells(objarr((2, 2), lambda i, j: b_not(e[i, j].nan))))
  h.true('values present', ('values_as_coord' in r.coords) == vals)
  if vals and 'values_as_coord' in r.coords:
    h.eq('value coordinate', r.values_as_coord.transpose('init_time', 'x'), wrapcells(e))
  h.true('reference passed', log == ([('R' if usesref else None)] if interp else []))
  h.eq('stored data untouched', ds['u'], v)


@SPEC.harness('nan masks')
def h_mask(h):
  """False exactly on NaN cells, of the chosen variables only."""
  v, w = h.floats('v', (2, 3), nan=True), h.floats('w', (3,), nan=True)
  subset = h.choice('subset', [None, ['a'], ['b', 'a'], []])
  kind = h.choice('container', [dict, xr.Dataset])
  d = kind({'a': xr.DataArray(v, dims=('x', 'y')), 'b': xr.DataArray(w, dims='y')})
  r = base.add_nan_mask_to_data(d) if subset is None else base.add_nan_mask_to_data(d, subset)
  h.true('variables', list(r) == ['a', 'b'])
  for k, x in (('a', v), ('b', w)):
    want = subset is None or k in subset
    h.true('has ' + k, ('mask' in r[k].coords) == want)
    h.eq('values ' + k, r[k], x)
    if want and 'mask' in r[k].coords:
      c = cells(x)
      h.eq('mask ' + k, r[k].mask, wrapcells(objarr(c.shape, lambda *i: b_not(c[i].nan))))
      h.true('dims ' + k, r[k].mask.dims == r[k].dims)


@SPEC.harness('preparing a dataset')
def h_prepare(h):
  """Preprocess, rename dimensions and variables, choose variables, select."""
  v = h.floats('v', (2, 3, 2), nan=True)
  T = np.array(['2020-01-01T00', '2020-01-01T12'], 'datetime64[ns]')
  latlon = h.choice('lat/lon', [True, False])
  renvar = h.choice('rename variables', [None, {'u': 'b', 'w': 'u'}])
  pre = h.choice('preprocess', [False, True])
  select = h.choice('select', [None, 'level', 'slice'])
  sub = h.choice('variables', [None, 'one'])
  path = h.choice('path', [None, '/x/a.zarr', '/x/a.zarr/', '/x/a.nc'])
  dim = h.choice('rename dimensions', ['ecmwf', {'time': 'valid_time', 'plev': 'level'}])
  lev = 'level' if dim == 'ecmwf' else 'plev'
  ds = xr.Dataset({'u': (('time', lev, 'lat'), v), 'w': (('time', lev, 'lat'), v + 10)},
                  coords={'time': T, lev: [500, 700, 850], 'lat': [0., 1.], 'lon': 5.})
  calls, opened = [], []
  def prep(x):
    calls.append(list(x.coords))
    return x.assign(u=x['u'] * 2)
  kw = dict(rename_dimensions=dim, rename_variables=renvar, automatically_convert_lat_lon_to_latitude_longitude=latlon)
  if pre:
    kw['preprocessing_fn'] = prep
  if select:
    kw['sel_kwargs'] = {'level': 700} if select == 'level' else {'level': slice(500, 700)}
  first, second = ('u', 'w') if renvar is None else ('b', 'u')
  if sub:
    kw['variables'] = [second]
  def opener(n):
    def f(p, *a, **k):
      opened.append((n, p))
      return ds
    return f
  with mock.patch.object(xr, 'open_zarr', opener('zarr')), mock.patch.object(xr, 'open_dataset', opener('nc')):
    lo = X.TargetsFromXarray(path=path, **kw) if path else X.TargetsFromXarray(ds=ds, **kw)
    for _ in range(2):
      r = lo.load_chunk(T, None)
  h.true('opened once', opened == ([] if path is None else [('zarr' if 'zarr' in path else 'nc', path)]))
  h.true('preprocessed once', len(calls) == int(pre))
  if pre:
    h.true('preprocessed first', 'time' in calls[0])
  h.true('variables', list(r) == ([second] if sub else [first, second]))
  lat = 'latitude' if latlon else 'lat'
  lv = {'level': [1], 'slice': [0, 1], None: [0, 1, 2]}[select]
  c = cells(v)
  for k, x in ((first, 'u'), (second, 'w')):
    if k not in r:
      continue
    def exp(i, l, j):
      e = c[i, lv[l], j]
      return f_add(e, lift_f(10)) if x == 'w' else f_mul(e, lift_f(2)) if pre else e
    g = r[k] if select != 'level' else r[k].expand_dims('level')
    h.eq('values ' + x, g.transpose('valid_time', 'level', lat), wrapcells(objarr((2, len(lv), 2), exp)))
    h.true('longitude ' + x, ('longitude' if latlon else 'lon') in r[k].coords)
  h.eq('stored data untouched', ds['u'], v)


@SPEC.harness('invalid configurations')
def h_invalid(h):
  v = h.floats('v', (1,))
  ds = xr.Dataset({'u': ('time', v)}, coords={'time': np.array(['2020-01-01'], 'datetime64[ns]')})
  with h.raises('path and ds', ValueError):
    X.TargetsFromXarray(path='/x/a.zarr', ds=ds)
  with h.raises('neither', ValueError):
    X.TargetsFromXarray()
  with h.raises('rename', ValueError):
    X.TargetsFromXarray(ds=ds, rename_dimensions='other').load_chunk(ds.time.values)
  with h.raises('unknown variable', KeyError):
    X.TargetsFromXarray(ds=ds, variables=['w']).load_chunk(ds.time.values)
  r = X.TargetsFromXarray(ds=ds.rename(time='valid_time'), rename_dimensions=None).load_chunk(ds.time.values)
  h.eq('not renamed', r['u'], v)
