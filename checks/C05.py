"""C05: coordinate, time and set bins classify every element correctly."""
import datetime
from checks.common import *
from weatherbenchX import binning

SPEC = Spec(
    'C05',
    functions=['binning.ByExactCoord', 'binning.ByTimeUnit',
               'binning.ByTimeUnitSets', 'binning.ByTimeUnitFromSeconds',
               'binning.ByCoordBins', 'binning.BySets',
               'binning.vectorized_coord_mask', 'binning._extract_time_unit'],
    bounds='2 or 3 elements (and 2x2 for exact coordinates) with arbitrary '
           'coordinate values: any real, any integer in -2..2, any second of '
           '2019-2025 for dates, any second of +-40 days for elapsed times; '
           'interval bins with 2-4 arbitrary edges; 9 calendar units; sets of '
           'up to 3 members',
    assumptions=['bin edges passed to ByCoordBins are in increasing order'])

T0 = int(np.datetime64('2019-01-01', 's').astype(int))
T1 = int(np.datetime64('2025-12-31T23:59:59', 's').astype(int))


def stat(h, n, **coords):
  return xr.DataArray(h.floats('v', (n,)), dims=('x',), coords=coords_noindex(**coords))


def as_text(x):
  return str(x)


def lab(m, dim, k):
  """Label cell of bin k."""
  return cells(m[dim])[k]


def sameval(a, b):
  if isinstance(a, F) or isinstance(b, F):
    return core.f_same(lift_f(a), lift_f(b))
  return core.i_eq(a.v if isinstance(a, I) else int(a), b.v if isinstance(b, I) else int(b))


def partition(h, m, dim, shape, value):
  """Every element is in exactly one bin and the bin carries its value."""
  mc = cells(m.astype(bool))
  nb = mc.shape[0]
  for i in np.ndindex(*shape):
    h.check(f'element {i} is in exactly one bin',
            f_eq(fsum([fb(mc[(k,) + i]) for k in range(nb)]), ONE))
    for k in range(nb):
      h.check(f'element {i} in bin {k} iff its value is the label',
              b_not(core.b_xor(mc[(k,) + i], sameval(lab(m, dim, k), value(i)))))
  for k in range(nb):
    h.check(f'bin {k} is not empty', b_or(*[mc[(k,) + i] for i in np.ndindex(*shape)]))


def exact(h, kind, n):
  if kind == 'int':
    c = h.ints('c', (n,), -2, 2)
  elif kind == 'float':
    c = h.floats('c', (n,))
  elif kind == 'lead':
    c = h.ints('c', (n,), -5, 5) * np.timedelta64(3600 * 6, 's')
  else:
    c = h.ints('c', (n,), T0, T1, dtype='M8[s]')
  cc = cells(c)
  b = binning.ByExactCoord('lead_time')
  m = b.create_bin_mask(stat(h, n, lead_time=('x', c)))
  h.true('dims', m.dims == ('lead_time', 'x') and b.bin_dim_name == 'lead_time')
  partition(h, m, 'lead_time', (n,), lambda i: cc[i])


for _k in ('int', 'float', 'lead', 'date'):
  SPEC.add(f'exact coordinate[{_k}]', (lambda k: lambda h: exact(h, k, 3))(_k))


@SPEC.harness('exact coordinate of two dimensions')
def exact2(h):
  c = h.ints('c', (2, 2), 0, 3)
  cc = cells(c)
  da = xr.DataArray(h.floats('v', (2, 2)), dims=('x', 'y'),
                    coords=coords_noindex(k=(('x', 'y'), c)))
  m = binning.ByExactCoord('k').create_bin_mask(da)
  h.true('dims', m.dims == ('k', 'x', 'y'))
  partition(h, m, 'k', (2, 2), lambda i: cc[i])


@SPEC.harness('exact coordinate with a global bin')
def exact_global(h):
  n = 3
  c = h.choice('labels', [np.array(['b', 'a', 'b']), np.array([2, 0, 2]),
                          np.array([0.5, 0.5, -1.]), np.array([6, 12, 6], 'm8[h]').astype('m8[ns]')])
  m = binning.ByExactCoord('k', add_global_bin=True).create_bin_mask(
      stat(h, n, k=('x', c)))
  labels = m.k.values.tolist()
  u = np.unique(c)
  h.true('labels', labels == ['global'] + [str(x) for x in u.astype(str)], str(labels))
  h.true('global', bool(m.values[0].all()))
  for j, x in enumerate(u):
    h.true(f'bin {j}', m.values[j + 1].tolist() == (c == x).tolist())


@SPEC.harness('exact coordinate must not be a dimension')
def exact_dim(h):
  with h.raises('dimension', AssertionError):
    binning.ByExactCoord('x').create_bin_mask(
        xr.DataArray(h.floats('v', (2,)), dims=('x',), coords={'x': [1, 2]}))


# -- calendar and elapsed units, written independently of the library --------
MONTHS = [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]


def calendar(sec, unit):
  """Symbolic/constant calendar field of seconds since 1970 in 2019..2025."""
  add, sub, fd, mod, ite_ = core.i_add, core.i_sub, core.i_floordiv, core.i_mod, core.i_ite
  if unit == 'second':
    return mod(sec, 60)
  if unit == 'minute':
    return fd(mod(sec, 3600), 60)
  if unit == 'hour':
    return fd(mod(sec, 86400), 3600)
  if unit == 'dayofweek':   # 1970-01-01 was a Thursday
    return mod(add(fd(sec, 86400), 3), 7)
  # walk the months of 2019..2025
  val, t = None, T0
  for y in range(2019, 2026):
    doy = 1
    for mth in range(1, 13):
      ln = MONTHS[mth - 1] + (1 if mth == 2 and y % 4 == 0 else 0)
      day0 = fd(sub(sec, t), 86400)
      v = {'year': y, 'month': mth, 'day': add(day0, 1),
           'dayofyear': add(day0, doy), 'quarter': (mth - 1) // 3 + 1}[unit]
      val = v if val is None else ite_(core.i_le(t, sec), v, val)
      t += ln * 86400
      doy += ln
  return val


UNITS = ['second', 'minute', 'hour', 'day', 'month', 'year', 'dayofyear',
         'dayofweek', 'quarter']
ELAPSED = {'second': 1, 'minute': 60, 'hour': 3600, 'day': 86400,
           'week': 7 * 86400, 'year': 365 * 86400}


def times(h, n, td, res='s'):
  if td:
    return h.ints('t', (n,), -40 * 86400, 40 * 86400, dtype='m8[s]')
  return h.ints('t', (n,), T0, T1, dtype='M8[s]')


def unitval(c, td, unit):
  if td:
    return I(core.i_floordiv(c.v, ELAPSED[unit]))
  return I(calendar(c.v, unit))


def by_unit(h, unit, td, is_dim):
  n = 2
  t = times(h, n, td)
  tc = cells(t)
  name = 'lead_time' if td else 'init_time'
  if is_dim:
    da = xr.DataArray(h.floats('v', (n,)), dims=(name,), coords=coords_noindex(**{name: (name, t)}))
  else:
    da = stat(h, n, **{name: ('x', t)})
  b = binning.ByTimeUnit(unit, name)
  dim = f'{name}_{unit}'
  h.true('bin dim', b.bin_dim_name == dim)
  m = b.create_bin_mask(da)
  h.true('dims', m.dims == (dim, name if is_dim else 'x'))
  partition(h, m, dim, (n,), lambda i: unitval(tc[i], td, unit))


for _u in UNITS:
  SPEC.add(f'time unit[{_u}]', (lambda u: lambda h: by_unit(h, u, False, u in ('hour', 'day')))(_u), cost=3)
for _u in ELAPSED:
  SPEC.add(f'elapsed unit[{_u}]', (lambda u: lambda h: by_unit(h, u, True, u == 'hour'))(_u), cost=3)


@SPEC.harness('unsupported elapsed unit')
def bad_unit(h):
  with h.raises('month of a timedelta', ValueError):
    binning.ByTimeUnit('month', 'lead_time').create_bin_mask(
        stat(h, 2, lead_time=('x', times(h, 2, True))))


@SPEC.harness('time unit with a global bin')
def unit_global(h):
  hrs = [h.pick_int(f'h{i}', 0, 3) * 6 for i in range(2)]
  t = np.datetime64('2020-02-28T00', 'ns') + np.array(hrs) * np.timedelta64(1, 'h')
  da = xr.DataArray(h.floats('v', (2,)), dims=('init_time',), coords={'init_time': t})
  m = binning.ByTimeUnit('hour', 'init_time', add_global_bin=True).create_bin_mask(da)
  u = sorted(set(hrs))
  h.true('labels', m.init_time_hour.values.tolist() == ['global'] + [str(x) for x in u],
         str(m.init_time_hour.values))
  h.true('masks', m.values.tolist() == [[True, True]] + [[x == y for y in hrs] for x in u])


def unit_sets(h, unit, td, sets, glob):
  n = 2
  t = times(h, n, td)
  tc = cells(t)
  name = 'lead_time' if td else 'valid_time'
  da = stat(h, n, **{name: ('x', t)})
  named = h.choice('named', [None, 'seasons'])
  b = binning.ByTimeUnitSets(sets, unit, name, bin_dim_name=named, add_global_bin=glob)
  dim = named or f'{name}_{unit}_sets'
  h.true('bin dim', b.bin_dim_name == dim)
  m = b.create_bin_mask(da)
  m = m.transpose(dim, 'x').astype(bool)
  h.true('labels', m[dim].values.tolist() == list(sets) + (['global'] if glob else []),
         str(m[dim].values))
  for k, (nm, s) in enumerate(sets.items()):
    s = s if isinstance(s, (list, tuple)) else [s]
    e = objarr((n,), lambda i: b_or(*[core.i_eq(unitval(tc[i], td, unit).v, x) for x in s]))
    h.eq(nm, m.isel({dim: k}), wrapcells(e))
  if glob:
    h.eq('global', m.isel({dim: len(sets)}), wrapcells(objarr((n,), lambda i: True)))


for _g in (False, True):
  SPEC.add(f'unit sets[hour,global={_g}]', (lambda g: lambda h: unit_sets(
      h, 'hour', False, {'00/12': [0, 12], '06/18': (6, 18), 'nine': 9}, g))(_g))
  SPEC.add(f'unit sets[month,global={_g}]', (lambda g: lambda h: unit_sets(
      h, 'month', False, {'djf': [12, 1, 2], 'jja': [6, 7, 8]}, g))(_g))
  SPEC.add(f'unit sets[elapsed hour,global={_g}]', (lambda g: lambda h: unit_sets(
      h, 'hour', True, {'day1': [0, 6, 12], 'neg': [-6], 'late': [240, 246]}, g))(_g))
SPEC.add('unit sets[dayofyear]', lambda h: unit_sets(
    h, 'dayofyear', False, {'leap day': [60], 'end': [365, 366]}, False))


def from_seconds(h, unit, bins):
  t = h.ints('t', (2,), -1000, 200000)
  tc = cells(t)
  b = binning.ByTimeUnitFromSeconds(unit, 'lead_time', bins)
  dim = f'lead_time_{unit}'
  h.true('bin dim', b.bin_dim_name == dim)
  m = b.create_bin_mask(stat(h, 2, lead_time=('x', t))).transpose(dim, 'x').astype(bool)
  want = list(bins) if bins is not None else list(range(24 if unit == 'hour' else 60))
  h.true('labels', m[dim].values.tolist() == want)
  per = ELAPSED[unit]
  h.eq('mask', m, wrapcells(objarr((len(want), 2), lambda k, i: core.i_eq(
      core.i_floordiv(tc[i].v, per), want[k]))))


for _u in ('second', 'minute', 'hour'):
  for _b in (None, [0, 6, 30]):
    SPEC.add(f'unit from seconds[{_u},{_b}]', (lambda u, b: lambda h: from_seconds(h, u, b))(_u, _b))


@SPEC.harness('unit from seconds: unknown unit')
def from_seconds_bad(h):
  with h.raises('day', ValueError):
    binning.ByTimeUnitFromSeconds('day', 'lead_time').create_bin_mask(
        stat(h, 2, lead_time=('x', h.ints('t', (2,), 0, 9))))


def coord_bins(h, ne, glob, kind, is_dim):
  n = 2
  if kind == 'float':
    c = h.floats('c', (n,), nan=True)
    e = h.floats('e', (ne,))
  elif kind == 'lead':
    c = h.ints('c', (n,), -100, 100, dtype='m8[s]')
    e = h.ints('e', (ne,), -100, 100, dtype='m8[s]')
  else:
    c = h.ints('c', (n,), -5, 5)
    e = h.ints('e', (ne,), -5, 5)
  cc, ec = cells(c), cells(e)
  lt = (lambda a, b: f_lt(a, b)) if kind == 'float' else (lambda a, b: core.i_lt(a.v, b.v))
  le = (lambda a, b: f_le(a, b)) if kind == 'float' else (lambda a, b: core.i_le(a.v, b.v))
  for i in range(ne - 1):
    h.assume(lt(ec[i], ec[i + 1]))
  nm = 'x' if is_dim else 'alt'
  if is_dim:
    da = xr.DataArray(h.floats('v', (n,)), dims=('x',), coords=coords_noindex(x=('x', c)))
  else:
    da = stat(h, n, alt=('x', c))
  b = binning.ByCoordBins(nm, e, add_global_bin=glob)
  m = b.create_bin_mask(da)
  mc = cells(m.astype(bool))
  return m, mc, cc, ec, lt, le, b, n


def check_coord_bins(h, ne, glob, kind):
  m, mc, cc, ec, lt, le, b, n = coord_bins(h, ne, glob, kind, False)
  h.true('dims', b.bin_dim_name == 'alt' and m.dims == ('alt', 'x'))
  h.true('number of bins', mc.shape == (ne - 1 + glob, n))
  for k in range(ne - 1):
    h.eq(f'bin {k}', m.isel(alt=k).astype(bool), wrapcells(objarr(
        (n,), lambda i: b_and(le(ec[k], cc[i]), lt(cc[i], ec[k + 1])))))
    if not glob:
      h.check(f'label {k} is the left edge', sameval(lab(m, 'alt', k), ec[k]))
  if glob:
    h.eq('global', m.isel(alt=ne - 1).astype(bool), wrapcells(objarr((n,), lambda i: True)))


for _ne in (2, 3, 4):
  for _k in ('float', 'int', 'lead'):
    SPEC.add(f'coordinate intervals[{_k},{_ne} edges]',
             (lambda ne, k: lambda h: check_coord_bins(h, ne, False, k))(_ne, _k))


@SPEC.harness('coordinate intervals with a global bin')
def coord_bins_global(h):
  edges = h.choice('edges', [np.array([0., 1., 2.5]), np.array([-10, 0, 10, 500])])
  c = h.floats('c', (2,))
  cc = cells(c)
  m = binning.ByCoordBins('alt', edges, add_global_bin=True).create_bin_mask(
      stat(h, 2, alt=('x', c))).transpose('alt', 'x').astype(bool)
  h.true('labels', m.alt.values.tolist() == [str(x) for x in edges[:-1]] + ['global'],
         str(m.alt.values))
  for k in range(len(edges) - 1):
    h.eq(f'bin {k}', m.isel(alt=k), wrapcells(objarr((2,), lambda i: b_and(
        f_le(lift_f(edges[k]), cc[i]), f_lt(cc[i], lift_f(edges[k + 1]))))))
  h.eq('global', m.isel(alt=len(edges) - 1), wrapcells(objarr((2,), lambda i: True)))


def by_sets(h, comp, glob, kind):
  n = 3
  if kind == 'str':
    c = np.array([h.choice(f'c{i}', ['KSFO', 'EDDM', 'LSZH']) for i in range(n)])
    isin = lambda i, s: c[i] in s
    sets = {'us': ['KSFO'], 'eu': ['EDDM', 'LSZH'], 'one': 'EDDM', 'none': ['XXXX']}
  else:
    c = h.ints('c', (n,), -2, 5) if kind == 'int' else h.floats('c', (n,))
    cc = cells(c)
    sets = {'a': [0, 1], 'b': (1, 3), 'c': 2}
    isin = lambda i, s: b_or(*[sameval(cc[i], lift_f(x) if kind == 'float' else I(x))
                              for x in s])
  b = binning.BySets(sets, 'station', 'group', add_set_complements=comp, add_global_bin=glob)
  m = b.create_bin_mask(stat(h, n, station=('x', c))).transpose('group', 'x').astype(bool)
  want = []
  for nm in sets:
    want += [nm] + ([f'not_in_{nm}'] if comp else [])
  want += ['global'] if glob else []
  h.true('labels', b.bin_dim_name == 'group' and m.group.values.tolist() == want, str(m.group.values))
  for nm, s in sets.items():
    s = s if isinstance(s, (list, tuple)) else [s]
    e = objarr((n,), lambda i: isin(i, s))
    h.eq(nm, m.sel(group=nm), wrapcells(e))
    if comp:
      h.eq(f'not {nm}', m.sel(group=f'not_in_{nm}'), wrapcells(objarr((n,), lambda i: b_not(e[i]))))
  if glob:
    h.eq('global', m.sel(group='global'), wrapcells(objarr((n,), lambda i: True)))


for _k in ('int', 'float', 'str'):
  for _c, _g in itertools.product([False, True], repeat=2):
    SPEC.add(f'sets[{_k},complements={_c},global={_g}]',
             (lambda k, c, g: lambda h: by_sets(h, c, g, k))(_k, _c, _g))


@SPEC.harness('sets need their own bin dimension')
def sets_names(h):
  for nm in (None, 'station'):
    with h.raises(f'{nm}', ValueError):
      binning.BySets({'a': [1]}, 'station', nm)
