"""C19: sparse observations are matched to exactly the right time window."""
import contextlib
import datetime
import re
import shutil
import tempfile
from unittest import mock
import pandas as pd
from checks.common import *
from checks.C17 import fcells
from symx import tobj
from symx.core import B, f_abs, f_mod, f_neg
from symx.tobj import T, as_t
from weatherbenchX.data_loaders import sparse_parquet as SP

SPEC = Spec(
    'C19',
    functions=['sparse_parquet.get_parquet_files_subset', 'sparse_parquet.parquet_filename_for_time',
               'sparse_parquet.SparseObservationsFromParquet', 'sparse_parquet.METARFromParquet',
               'sparse_parquet.set_bad_quality_to_nan', 'sparse_parquet.convert_longitude_to_0_to_360',
               'data_loaders.base.DataLoader.load_chunk'],
    bounds='1 to 3 observations at any minute of a window of 2 to 5 hours (hour partitions), or of two '
           'days or months around their boundary (leap day, year end); 1 or 2 query times at any '
           'minute; any tolerance or lead-time interval in minutes; every value and flag in the METAR '
           'columns',
    assumptions=['pandas.read_parquet is replaced by a stand-in that returns the rows stored in the '
                 'file that was asked for and applies the filters; concrete replays write and read '
                 'real parquet files', 'an observation is stored in the partition of a nominal time '
                 'at most file_tolerance away from its own time'])
EPOCH = np.datetime64('1970-01-01T00:00', 'm')


def minute(s): return int((np.datetime64(s, 'm') - EPOCH).astype(int))


def tarr(h, name, n, lo, hi, kind='M', step=1):
  """n times at any multiple of step minutes in [lo, hi], and their terms."""
  v = h.ints(name, (n,), -(-lo // step), hi // step)
  t = [f_mul(lift_f(step), x) for x in fcells(v)]
  return times_of(h, t, kind), t


def times_of(h, t, kind):
  if h.sym:
    return objarr((len(t),), lambda i: T(t[i], kind))
  m = np.array([int(x.v) for x in t])
  return (EPOCH + m if kind == 'M' else m.astype('timedelta64[m]')).astype(
      'datetime64[ns]' if kind == 'M' else 'timedelta64[ns]')


def tcells(da):
  """Minute terms of a coordinate or column."""
  return [as_t(x).v for x in np.asarray(getattr(da, 'values', da)).ravel()]


UNITS = {'hour': 'h', 'day': 'D', 'month': 'M'}


def part_name(part, t):
  """Independent statement of the documented file layout."""
  d = t.astype('datetime64[s]').item()
  s = f'year={d.year}/month={d.month}'
  e = f'{d.year}-{d.month:02}'
  if part != 'month':
    s, e = s + f'/day={d.day}', e + f'-{d.day:02}'
  if part == 'hour':
    s, e = s + f'/hour={d.hour}', e + f'T{d.hour:02}'
  return f'{s}/{e}.parquet'


class Store:
  """Observations kept in parquet partitions."""

  def __init__(self, h, part, lo, hi, cols, times, stored):
    """cols: plain columns; times: name -> minute terms; stored: the nominal
    minute that decides in which file each row is."""
    self.h, self.part, self.cols, self.times, self.stored = h, part, cols, times, stored
    self.n = len(stored)
    u = UNITS[part]
    a, b = (np.datetime64(EPOCH + x, u) for x in (lo, hi))
    self.files = {part_name(part, a + i): a + i for i in range(int((b - a).astype(int)) + 1)}
    self.horizon = (str(EPOCH + lo), str(EPOCH + hi))
    self.opened = []
    self.path = '/nowhere/obs'

  def frame(self, rows):
    d = {}
    for k, v in self.cols.items():
      v = np.asarray(v)
      d[k] = v[rows] if len(rows) else v[:0]
    for k, t in self.times.items():
      if self.h.sym:
        o = np.empty(len(rows), dtype=object)
        for j, r in enumerate(rows):
          o[j] = T(t[r], 'M')
        d[k] = o
      else:
        d[k] = times_of(self.h, [t[r] for r in rows], 'M') if len(rows) else np.array([], 'M8[ns]')
    return pd.DataFrame(d)

  def in_file(self, r, lo):
    t = T(self.stored[r], 'M')
    return b_and(t.cond('>=', lo), t.cond('<', lo + 1))

  def read(self, fn, *args, filters=None, columns=None, **kw):
    fn = str(fn)
    rel = fn[len(self.path) + 1:]
    if not fn.startswith(self.path + '/'):
      raise FileNotFoundError(fn)
    if rel not in self.files:
      return self.missing(fn)
    self.opened.append(rel)
    fl = filters or []
    ors = fl if fl and isinstance(fl[0], list) else [fl]
    rows = []
    for r in range(self.n):
      keep = b_or(*[b_and(*[T(self.times[c][r], 'M').cond(op, x) for c, op, x in f]) for f in ors])
      if bool(B(b_and(self.in_file(r, self.files[rel]), keep))):
        rows.append(r)
    df = self.frame(rows)
    return df if columns is None else df[columns]

  def missing(self, fn):
    raise FileNotFoundError(fn)

  @contextlib.contextmanager
  def active(self):
    if self.h.sym:
      old, T.horizon = T.horizon, self.horizon
      try:
        with mock.patch.object(SP, 'np', tobj.NumpyProxy()), \
            mock.patch.object(SP, 'pd', tobj.PandasProxy(read_parquet=self.read)):
          yield
      finally:
        T.horizon = old
      return
    self.path = tempfile.mkdtemp()
    try:
      for rel, lo in self.files.items():
        rows = [r for r in range(self.n) if self.in_file(r, lo) is True]
        f = os.path.join(self.path, rel)
        os.makedirs(os.path.dirname(f), exist_ok=True)
        self.frame(rows).to_parquet(f)
      yield
    finally:
      shutil.rmtree(self.path)


def obs(h, part, lo, hi, n, ft, pad, step=1, stations=None, extra=()):
  """n observations with nominal time in [lo, hi] and a true time within ft."""
  stored = tarr(h, 'nominal', n, lo, hi, step=step)[1]
  off = tarr(h, 'offset', n, -ft, ft, 'm', step=step)[1]
  t = [f_add(a, b) for a, b in zip(stored, off)]
  cols = {'u': np.arange(n) + 1., 'w': (np.arange(n) + 1.) * 10, 'lat': np.arange(n) - 5.,
          'station': np.array(stations or ['abc'[i] for i in range(n)], dtype=object)}
  return Store(h, part, lo - pad, hi + pad, cols, {'timeObs': t, 'timeNominal': stored}, stored), t


def compare(h, ds, t, queries, match, rows=None):
  """queries: (init term, lead term or None); match[q][r] condition."""
  u = ds['u']
  rid = [int(x) - 1 for x in np.asarray(u.values)]
  h.eq('number of observations', wrapcells(objarr((), lambda: lift_f(len(rid)))),
       wrapcells(objarr((), lambda: fsum([fb(m) for q in match for m in q]))))
  it = tcells(u['init_time']) if queries[0][1] is not None else None
  lt = tcells(u['lead_time']) if queries[0][1] is not None else None
  n = len(t)

  def count(q, r):
    a, b = queries[q]
    return fsum([fb(True if b is None else b_and(f_eq(it[k], a), f_eq(lt[k], b(r) if callable(b) else b)))
                 for k in range(len(rid)) if rid[k] == r])
  if queries[0][1] is None:
    h.eq('kept', wrapcells(objarr((n,), lambda r: count(0, r))),
         wrapcells(objarr((n,), lambda r: fsum([fb(m[r]) for m in match]))))
  else:
    h.eq('kept and labelled', wrapcells(objarr((len(queries), n), count)),
         wrapcells(objarr((len(queries), n), lambda q, r: fb(match[q][r]))))
  vt = tcells(u['valid_time'])
  h.true('valid time', b_and(*[f_eq(a, t[r]) for a, r in zip(vt, rid)]))
  h.true('other columns', np.array_equal(np.asarray(ds['w'].values, float), [(r + 1) * 10. for r in rid]))
  if 'lat' in u.coords:
    h.true('coordinates', np.array_equal(np.asarray(u['lat'].values, float), [r - 5. for r in rid]))


WINDOWS = {'hour': ('2020-02-28T22:00', 180, 20), 'day': ('2020-02-28T21:00', 360, 45),
           'month': ('2019-12-31T21:00', 360, 45), 'leap': ('2020-02-29T21:00', 360, 45)}


def window(name):
  s, n, step = WINDOWS[name]
  return ('month' if name == 'leap' else name), minute(s), n, step


def loader(part, path, **kw):
  a = dict(path=path, partitioned_by=part, time_dim='timeObs', variables=['u', 'w'],
           coordinate_variables=['lat', 'station'])
  a.update(kw)
  return SP.SparseObservationsFromParquet(**a)


def exact(h, name, lead):
  """No tolerance: only observations at the valid time itself."""
  part, base, n, step = window(name)
  ft = h.choice('file tolerance', [0, 2 * step])
  st, t = obs(h, part, base, base + n, 1, ft, 400, step)
  with st.active():
    lo = loader(part, st.path, file_tolerance=np.timedelta64(ft, 'm'))
    if lead:
      Q, q = tarr(h, 'init', 1, base - 60, base + n, step=step)
      D, d = tarr(h, 'lead', 2, 0, 120, 'm', step=step)
      h.assume(b_not(f_eq(d[0], d[1])))
      qs = [(q[0], x) for x in d]
      val = [f_add(q[0], x) for x in d]
      ds = lo.load_chunk(Q, D)
    else:
      Q, q = tarr(h, 'init', 2, base, base + n, step=step)
      qs, val = [(x, None) for x in q], q
      ds = lo.load_chunk(Q)
    compare(h, ds, t, qs, [[f_eq(x, v) for x in t] for v in val])


for w in WINDOWS:
  for l in (True, False):
    SPEC.add(f'exact[{w},{"leads" if l else "no leads"}]', (lambda w, l: lambda h: exact(h, w, l))(w, l), cost=5)


def tolerance(h, name, kind):
  part, base, n, step = window(name)
  ft = h.choice('file tolerance', [0, 2 * step])
  st, t = obs(h, part, base, base + n, 2, ft, 400, step)
  inc = h.choice('include end', [False, True])
  with st.active():
    if kind == 'single':
      tol, a = tarr(h, 'tol', 1, step, 3 * step, 'm', step=step)
      tol, (a, b) = tol[0], (f_neg(a[0]), a[0])
    else:
      tol, (a, b) = tarr(h, 'tol', 2, -2 * step, 3 * step, 'm', step=step)
      tol = tuple(tol)
      if not h.is_true(f_lt(a, b)):
        with h.raises('empty tolerance', ValueError):
          loader(part, st.path, tolerance=tol)
        return
    lo = loader(part, st.path, tolerance=tol, include_slice_end_time=inc, file_tolerance=np.timedelta64(ft, 'm'))
    lead = h.choice('leads', [True, False])
    Q, q = tarr(h, 'init', 1, base - 60, base + n, step=step)
    if lead:
      D, d = tarr(h, 'lead', 1, 0, 60, 'm', step=step)
      ds = lo.load_chunk(Q, D)
      v, qs = f_add(q[0], d[0]), [(q[0], d[0])]
    else:
      ds = lo.load_chunk(Q)
      v, qs = q[0], [(q[0], None)]
    le = f_le if inc else f_lt
    compare(h, ds, t, qs, [[b_and(f_le(f_add(v, a), x), le(x, f_add(v, b))) for x in t]])


for w in WINDOWS:
  for k in ('single', 'pair'):
    SPEC.add(f'tolerance[{w},{k}]', (lambda w, k: lambda h: tolerance(h, w, k))(w, k), cost=5)


def interval(h, name):
  part, base, n, step = window(name)
  nq = 1 if name == 'hour' else h.choice('inits', [1, 2])
  ft = h.choice('file tolerance', [0, 2 * step])
  st, t = obs(h, part, base, base + n, 1 if name == 'hour' else 3 - nq, ft, 500, step)
  inc = h.choice('include end', [False, True])
  with st.active():
    lo = loader(part, st.path, include_slice_end_time=inc, file_tolerance=np.timedelta64(ft, 'm'))
    Q, q = tarr(h, 'init', nq, base - 60, base + n, step=step)
    if nq == 2:
      h.assume(f_lt(q[0], q[1]))
    D, d = tarr(h, 'limits', 2, -2 * step, 4 * step, 'm', step=step)
    h.assume(f_lt(d[0], d[1]))
    ds = lo.load_chunk(Q, slice(D[0], D[1]))
    le = f_le if inc else f_lt
    compare(h, ds, t, [(x, (lambda x: lambda r: f_sub(t[r], x))(x)) for x in q],
            [[b_and(f_le(f_add(v, d[0]), x), le(x, f_add(v, d[1]))) for x in t] for v in q])


for w in WINDOWS:
  SPEC.add(f'interval[{w}]', (lambda w: lambda h: interval(h, w))(w), cost=6)


def duplicates(h, by, stations):
  """One observation per station and valid time: the closest one."""
  base = minute('2020-02-10T10:00')
  n = len(stations)
  st, t = obs(h, 'month', base, base + 120, n, 40, 400, 20, stations=stations)
  pick = {'timeObs': t, 'timeNominal': st.stored, None: None}[by]
  with st.active():
    lo = loader('month', st.path, tolerance=(np.timedelta64(-40, 'm'), np.timedelta64(60, 'm')),
                remove_duplicates=True, observation_dim='station', pick_closest_duplicate_by=by,
                file_tolerance=np.timedelta64(60, 'm'))
    Q, q = tarr(h, 'init', 1, base, base + 120, step=20)
    nl = 2 if n == 2 else 1
    D, d = tarr(h, 'lead', nl, 0, 40, 'm', step=20)
    if nl == 2:
      h.assume(f_lt(d[0], d[1]))
    ds = lo.load_chunk(Q, D)
  rid = [int(x) - 1 for x in ds['u'].values]
  it, lt = tcells(ds['init_time']), tcells(ds['lead_time'])
  vt = tcells(ds['valid_time'])
  h.true('valid time', b_and(*[f_eq(a, t[r]) for a, r in zip(vt, rid)]))
  h.true('stations', [str(x) for x in ds['station'].values] == [stations[r] for r in rid])
  total = []
  for k in range(nl):
    v = f_add(q[0], d[k])
    m = [b_and(f_le(f_add(v, lift_f(-40)), x), f_lt(x, f_add(v, lift_f(60)))) for x in t]
    for s in sorted(set(stations)):
      rows = [r for r in range(n) if stations[r] == s]
      here = [b_and(f_eq(it[j], q[0]), f_eq(lt[j], d[k])) for j in range(len(rid))]
      cnt = fsum([fb(here[j]) for j in range(len(rid)) if rid[j] in rows])
      total.append(fb(b_or(*[m[r] for r in rows])))
      h.eq('one per station', wrapcells(objarr((), lambda: cnt)), wrapcells(objarr((), lambda: total[-1])))
      for j, r in enumerate(rid):
        if r not in rows:
          continue
        h.true('within the window', b_or(b_not(here[j]), m[r]))
        if pick is not None:
          dist = lambda x: f_abs(f_sub(pick[x], v))
          h.true('closest', b_or(b_not(here[j]), b_and(*[b_or(b_not(m[x]), f_le(dist(r), dist(x))) for x in rows])))
        else:
          h.true('first', b_or(b_not(here[j]), b_and(*[b_not(m[x]) for x in rows if x < r])))
  h.eq('nothing else', wrapcells(objarr((), lambda: lift_f(len(rid)))), wrapcells(objarr((), lambda: fsum(total))))


for by in ('timeObs', 'timeNominal', None):
  for s in (['a', 'a'], ['a', 'b', 'a'], ['b', 'b', 'b']):
    if by == 'timeObs' or len(s) == 2 or s[0] == 'a':
      SPEC.add(f'duplicates[{by},{"".join(s)}]', (lambda b, s: lambda h: duplicates(h, b, s))(by, s), cost=5)


@SPEC.harness('missing values and names', cost=3)
def h_dropna(h):
  base = minute('2020-02-10T10:00')
  t = tarr(h, 'time', 2, base, base + 20, step=20)[1]
  nan = [[h.choice(f'nan{v}{r}', [False, True]) for r in range(2)] for v in 'xy']
  split, drop = h.choice('options', [(False, False), (False, True), (True, False), (True, True)])
  val = [[np.nan if nan[v][r] else 10. * v + r + 1 for r in range(2)] for v in range(2)]
  st = Store(h, 'day', base - 60, base + 120, {
      'raw_u': np.array(val[0]), 'w': np.array(val[1]), 'lat': np.array([-5., -4.]), 'id': np.arange(2.),
      'station': np.array(['a', 'b'], object)}, {'timeObs': t}, t)
  names = ('u', 'w') if split else ['u', 'w']
  pre = h.choice('preprocess', [None, lambda df: df.assign(w=df['w'] + 100)])
  with st.active():
    lo = loader('day', st.path, variables=names, rename_variables={'raw_u': 'u', 'id': 'lon'},
                coordinate_variables=('lat', 'lon'), split_variables=split, dropna=drop, preprocessing_fn=pre)
    Q, q = tarr(h, 'init', 1, base, base + 20, step=20)
    ds = lo.load_chunk(Q, times_of(h, [ZERO], 'm'))
  if pre is not None:
    val[1] = [x + 100 for x in val[1]]
  h.true('container', isinstance(ds, dict if split else xr.Dataset))
  h.true('variables', set(ds) == {'u', 'w'})
  for v, name in enumerate('uw'):
    a = ds[name]
    rid = [int(x) for x in a['lon'].values]
    h.true('coordinates', set(a.coords) == {'index', 'lat', 'lon', 'valid_time', 'init_time', 'lead_time'}
           and list(a['lat'].values) == [r - 5. for r in rid])
    h.true('values', np.array_equal(a.values.astype(float), [val[v][r] for r in rid], equal_nan=True))
    keep = [not drop or not np.isnan(val[v][r]) and (split or not np.isnan(val[1 - v][r])) for r in range(2)]
    h.eq('rows', wrapcells(objarr((2,), lambda r: lift_f(rid.count(r)))),
         wrapcells(objarr((2,), lambda r: fb(b_and(keep[r], f_eq(t[r], q[0]))))))


@SPEC.harness('metar', cost=4)
def h_metar(h):
  base = minute('2020-02-29T22:00')
  t = tarr(h, 'time', 2, base, base + 240, step=60)[1]
  stored = [f_add(x, lift_f(-30)) for x in t]
  num = {k: h.floats(k, (2,), lo, hi, nan=nan) for k, lo, hi, nan in (
      ('temperature', -100, 400, True), ('windSpeed', 0, 100, True), ('longitude', -180, 360, False),
      ('elevation', -500, 9999, True), ('latitude', -90, 90, False))}
  tab = {k: cells(v) for k, v in num.items()}
  flag = h.choice('flag', ['Z', 'B', 'X', 'Q', 'k', 'S', 'V', 'b', 'K', ''])
  swap = h.choice('row', [False, True])
  dd = {'temperatureDD': [flag, 'S'], 'windSpeedDD': ['V', 'X']}
  if swap:
    dd = {k: v[::-1] for k, v in dd.items()}
  cols = dict(dd, stationName=np.array(['p', 'q'], object))
  for k, v in num.items():
    cols[k] = tab[k] if h.sym else np.asarray(v)
  cols = {k: np.array(v, object) if isinstance(v, list) else v for k, v in cols.items()}
  st = Store(h, 'month', base - 400, base + 800, cols, {'timeObs': t, 'timeNominal': stored}, stored)
  pre = h.choice('preprocess', [False, True])
  with st.active():
    lo = SP.METARFromParquet(
        path=st.path, variables=['10m_wind_speed', '2m_temperature'], time_dim='timeObs',
        preprocessing_fn=(lambda df: df.assign(windSpeed=df['windSpeed'] * 2)) if pre else None)
    Q, q = tarr(h, 'init', 1, base, base + 240, step=60)
    ds = lo.load_chunk(Q)
  rid = ['pq'.index(x) for x in ds['stationName'].values]
  h.eq('rows', wrapcells(objarr((2,), lambda r: lift_f(rid.count(r)))),
       wrapcells(objarr((2,), lambda r: fb(f_eq(t[r], q[0])))))
  if not rid:
    return
  h.true('variables', set(ds.data_vars) == {'10m_wind_speed', '2m_temperature'})
  bad = ('Z', 'B', 'X', 'Q', 'k')
  get = lambda n: wrapcells(objarr((len(rid),), lambda j: lift_f(ds[n].values[j])))
  for n, raw, m in (('2m_temperature', 'temperature', 1), ('10m_wind_speed', 'windSpeed', 2 if pre else 1)):
    h.eq(n, get(n), wrapcells(objarr((len(rid),), lambda j: NAN if dd[raw + 'DD'][rid[j]] in bad
                                     else f_mul(lift_f(m), tab[raw][rid[j]]))))
  lon = [f_ite(f_lt(x, ZERO), f_add(x, lift_f(360)), f_ite(f_eq(x, lift_f(360)), ZERO, x)) for x in tab['longitude']]
  h.eq('longitude', get('longitude'), wrapcells(objarr((len(rid),), lambda j: lon[rid[j]])))
  h.eq('latitude', get('latitude'), wrapcells(objarr((len(rid),), lambda j: tab['latitude'][rid[j]])))
  el = [f_ite(f_eq(x, lift_f(9999)), NAN, x) for x in tab['elevation']]
  h.eq('elevation', get('elevation'), wrapcells(objarr((len(rid),), lambda j: el[rid[j]])))


@SPEC.harness('rejected')
def h_rejected(h):
  base = minute('2020-02-10T10:00')
  st, t = obs(h, 'day', base, base + 60, 1, 0, 400, 20)
  td = lambda n: np.timedelta64(n, 'm')
  D, d = tarr(h, 'limits', 2, -60, 60, 'm', step=20)
  with st.active():
    with h.raises('partitioning', ValueError):
      loader('year', st.path)
    with h.raises('duplicates without stations', ValueError):
      loader('day', st.path, remove_duplicates=True)
    with h.raises('three tolerances', ValueError):
      loader('day', st.path, tolerance=(td(1), td(2), td(3)))
    with h.raises('tolerance with an interval', AssertionError):
      loader('day', st.path, tolerance=td(20)).load_chunk(times_of(h, [t[0]], 'M'), slice(D[0], D[1]))
    h.assume(f_lt(d[0], d[1]))
    with h.raises('duplicates with an interval', AssertionError):
      loader('day', st.path, remove_duplicates=True, observation_dim='station').load_chunk(
          times_of(h, [t[0]], 'M'), slice(D[0], D[1]))
