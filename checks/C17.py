"""C17: latency never lets a forecast use data that is not yet available."""
from checks.common import *
from symx.core import i_eq
from weatherbenchX.data_loaders import base, latency_wrappers as W, xarray_loaders as X

SPEC = Spec(
    'C17',
    functions=['latency_wrappers.ConstantLatencyWrapper', 'latency_wrappers.XarrayConstantLatencyWrapper',
               'latency_wrappers.MultipleConstantLatencyWrapper', 'data_loaders.base.DataLoader.load_chunk',
               'xarray_loaders.PredictionsFromXarray'],
    bounds='schedules of up to 4 forecasts per source at any minutes in any order (repeats included), '
           'up to 3 sources, any latency of 0 to 48 h per source, 1 to 3 query times at any minute, 1 or 2 '
           'lead times; dense and sparse (index) layouts',
    assumptions=['the wrapped loader is either the real PredictionsFromXarray or a stand-in that '
                 'returns a field encoding the (source, nominal time, lead time) it was asked for'])
HOUR = 'datetime64[h]'
MIN = 'datetime64[m]'


def minutes(x, unit='m'):
  """Whole minutes as an integer array (works on symbolic and real arrays)."""
  return x.astype('int64') if x.dtype.str.endswith(f'[{unit}]') else x.astype(
      ('datetime64' if x.dtype.kind == 'M' else 'timedelta64') + f'[{unit}]').astype('int64')


class Tagged(base.DataLoader):
  """Returns the (nominal time, lead time) asked for, as a field."""

  def __init__(self, src, sparse=False, **kw):
    super().__init__(**kw)
    self.src, self.sparse = src, sparse

  def _load_chunk_from_source(self, init_times, lead_times=None):
    i, l = np.asarray(init_times), np.asarray(lead_times)
    if self.sparse:
      i = np.broadcast_to(i, l.shape)
      c = dict(init_time=('index', i), lead_time=('index', l))
      mk = lambda v, n: xr.DataArray(v, dims='index', coords=c, name=n)
      return {'nominal': mk(minutes(i) * 1.0, 'nominal'), 'lead': mk(minutes(l) * 1.0, 'lead'),
              'source': mk(minutes(l) * 0.0 + self.src, 'source')}
    i2, l2 = np.broadcast_to(i[:, None], (len(i), len(l))), np.broadcast_to(l[None], (len(i), len(l)))
    mk = lambda v, n: xr.DataArray(v, dims=('init_time', 'lead_time'), coords=dict(init_time=i, lead_time=l), name=n)
    return {'nominal': mk(minutes(i2) * 1.0, 'nominal'), 'lead': mk(minutes(l2) * 1.0, 'lead'),
            'source': mk(minutes(l2) * 0.0 + self.src, 'source')}


def best(noms, lat, q):
  """(anything available, most recent available nominal hour) as terms."""
  some, val = False, ZERO
  for n in noms:
    ok = f_le(f_add(n, lat), q)
    better = b_and(ok, b_or(b_not(some), f_lt(val, n)))
    val = f_ite(better, n, val)
    some = b_or(some, ok)
  return some, val


def times(h, name, n):
  v = h.ints(name, (n,), 438000 * 60, 438240 * 60, dtype=MIN)
  return v, [lift_f(core.I(x.v)) if hasattr(x, 'v') else lift_f(x) for x in cells(v)]


def fcells(a):
  """Float cells of integer-like arrays."""
  return [lift_f(core.I(x.v)) if isinstance(x, core.I) else lift_f(x) for x in cells(a).ravel()]


def latency(h, name):
  v = h.ints(name, (), 0, 2880, dtype='timedelta64[m]')
  return v[()], fcells(v)[0]


@SPEC.harness('most recent available forecast')
def h_avail(h):
  N, n = times(h, 'nominal', 3)
  Q, q = times(h, 'query', 1)
  L, l = latency(h, 'latency')
  w = W.ConstantLatencyWrapper(Tagged(0), L, N)
  some, val = best(n, l, q[0])
  if not h.is_true(some):
    with h.raises('nothing available', ValueError):
      w.get_available_init_time(Q[0])
    return
  r = w.get_available_init_time(Q[0])
  g = fcells(minutes(r))[0]
  h.true('most recent', f_eq(g, val))
  h.true('not from the future', f_le(f_add(g, l), q[0]))


def load(h, sparse, nq, nn, unit):
  """The queried and returned times, and which nominal run is behind them."""
  N, n = times(h, 'nominal', nn)
  Q, q = times(h, 'query', nq)
  L, l = latency(h, 'latency')
  lead = h.ints('lead', (2,), 0, 2880, dtype='timedelta64[m]')
  d = fcells(lead)
  h.assume(f_lt(d[0], d[1]))
  if nq == 2:
    h.assume(b_not(f_eq(q[0], q[1])))
  if unit == 'ns':
    N, Q, lead, L = N.astype('datetime64[ns]'), Q.astype('datetime64[ns]'), lead.astype('timedelta64[ns]'), L.astype('timedelta64[ns]')
  w = W.ConstantLatencyWrapper(Tagged(0, sparse), L, N, concat_dim='index' if sparse else 'init_time')
  b = [best(n, l, x) for x in q]
  if not h.is_true(b_and(*[s for s, _ in b])):
    with h.raises('nothing available', ValueError):
      w.load_chunk(Q, lead)
    return
  r = w.load_chunk(Q, lead)
  flat = lambda x: x.transpose('index') if sparse else x.transpose('init_time', 'lead_time')
  grid = [(i, j) for i in range(nq) for j in range(2)]
  sh = (2 * nq,) if sparse else (nq, 2)
  mk = lambda f: wrapcells(np.asarray([f(i, j) for i, j in grid], dtype=object).reshape(sh))
  h.true('variables', list(r) == ['nominal', 'lead', 'source'])
  h.eq('nominal time', flat(r['nominal']), mk(lambda i, j: b[i][1]))
  h.eq('nominal lead', flat(r['lead']), mk(lambda i, j: f_add(d[j], f_sub(q[i], b[i][1]))))
  it, lt = (fcells(minutes(np.asarray(r['nominal'][k].data))) for k in ('init_time', 'lead_time'))
  if sparse:
    e1, e2 = [q[i] for i, _ in grid], [d[j] for _, j in grid]
  else:
    e1, e2 = q, d
  h.true('init labels', b_and(*[f_eq(x, y) for x, y in zip(it, e1)]))
  h.true('lead labels', b_and(*[f_eq(x, y) for x, y in zip(lt, e2)]))
  h.true('number of labels', len(it) == len(e1) and len(lt) == len(e2))


for sparse, nq, nn, unit in ((False, 2, 2, 'ns'), (True, 2, 2, 'ns'), (False, 1, 3, 'm'), (False, 3, 4, 'ns')):
  SPEC.add(f'load[sparse={sparse} queries={nq} schedule={nn} {unit}]',
           (lambda *a: lambda h: load(h, *a))(sparse, nq, nn, unit), cost=2)


def sources(h, ns, nn):
  """Several sources: freshest available, then largest latency."""
  N, n, L, l = [], [], [], []
  for s in range(ns):
    a, b = times(h, f'nominal{s}', nn)
    c, d = latency(h, f'latency{s}')
    N.append(a); n.append(b); L.append(c); l.append(d)
  Q, q = times(h, 'query', 1)
  lead = np.array([6], 'timedelta64[h]')
  ws = [W.ConstantLatencyWrapper(Tagged(s), L[s], N[s]) for s in range(ns)]
  m = W.MultipleConstantLatencyWrapper(ws)
  b = [best(n[s], l[s], q[0]) for s in range(ns)]
  if not h.is_true(b_or(*[x for x, _ in b])):
    with h.raises('nothing available', ValueError):
      m.load_chunk(Q, lead)
    return
  r = m.load_chunk(Q, lead)
  top = None
  for s in range(ns):
    top = (b[s][0], b[s][1]) if top is None else (
        b_or(top[0], b[s][0]),
        f_ite(b_and(b[s][0], b_or(b_not(top[0]), f_lt(top[1], b[s][1]))), b[s][1], top[1]))
  g, src = fcells(r['nominal'].data)[0], fcells(r['source'].data)[0]
  h.true('freshest', f_eq(g, top[1]))
  lat = l[0]
  for s in range(1, ns):
    lat = f_ite(f_eq(src, lift_f(s)), l[s], lat)
  h.true('not from the future', f_le(f_add(g, lat), q[0]))
  for s in range(ns):
    tie = b_and(b[s][0], f_eq(b[s][1], top[1]))
    h.true(f'largest latency on ties {s}', b_or(b_not(tie), f_le(l[s], lat)))
  h.eq('lead', r['lead'].data.reshape((1,)), wrapcells([f_add(lift_f(360), f_sub(q[0], g))]))
  it = fcells(minutes(np.asarray(r['lead'].init_time.data)))
  h.true('init label', len(it) == 1)
  h.true('init value', f_eq(it[0], q[0]))
  lt = fcells(minutes(np.asarray(r['lead'].lead_time.data)))
  h.true('lead label', f_eq(lt[0], lift_f(360)))


SPEC.add('sources[2 x 2]', lambda h: sources(h, 2, 2), cost=3)
SPEC.add('sources[2 x 3]', lambda h: sources(h, 2, 3), cost=3)
SPEC.add('sources[3 x 2]', lambda h: sources(h, 3, 2), cost=3)
SPEC.add('sources[3 x 1]', lambda h: sources(h, 3, 1), cost=3)


@SPEC.harness('several sources, several queries')
def h_two_queries(h):
  """Every query picks its own source; the order of queries is kept."""
  N0 = np.array(['2020-01-01T00', '2020-01-01T12'], HOUR)
  N1 = np.array(['2020-01-01T06', '2020-01-01T18'], HOUR)
  base_ = int(N0[0].astype(MIN).astype('int64'))
  Q = h.ints('query', (2,), base_, base_ + 1800, dtype=MIN)
  q = fcells(Q)
  h.assume(b_not(f_eq(q[0], q[1])))
  sparse = h.choice('sparse', [False, True])
  lead = np.array([0, 6], 'timedelta64[h]')
  dim = 'index' if sparse else 'init_time'
  ws = [W.ConstantLatencyWrapper(Tagged(s, sparse), np.timedelta64(t, 'h'), n, concat_dim=dim)
        for s, (n, t) in enumerate([(N0, 6), (N1, 9)])]
  m = W.MultipleConstantLatencyWrapper(ws, concat_dim=dim)
  runs = [(N0[0], 6, 0), (N1[0], 9, 1), (N0[1], 6, 0), (N1[1], 9, 1)]
  def exp(x):
    some, nom, src = False, ZERO, ZERO
    for t, l, s in runs:
      ok = f_le(lift_f(int(t.astype(MIN).astype('int64')) + 60 * l), x)
      nom, src = f_ite(ok, lift_f(int(t.astype(MIN).astype('int64'))), nom), f_ite(ok, lift_f(s), src)
      some = b_or(some, ok)
    return some, nom, src
  e = [exp(x) for x in q]
  if not h.is_true(b_and(e[0][0], e[1][0])):
    with h.raises('nothing available', ValueError):
      m.load_chunk(Q, lead)
    return
  r = m.load_chunk(Q, lead)
  sh = (4,) if sparse else (2, 2)
  mk = lambda f: wrapcells(np.asarray([f(i, j) for i in range(2) for j in range(2)], dtype=object).reshape(sh))
  h.eq('nominal', r['nominal'], mk(lambda i, j: e[i][1]))
  h.eq('source', r['source'], mk(lambda i, j: e[i][2]))
  h.eq('lead', r['lead'], mk(lambda i, j: f_add(lift_f([0, 360][j]), f_sub(q[i], e[i][1]))))
  it = fcells(minutes(np.asarray(r['nominal'].init_time.data)))
  want = [q[0], q[0], q[1], q[1]] if sparse else q
  h.true('labels', b_and(*[f_eq(x, y) for x, y in zip(it, want)]))


def stored(h, cls, renamed):
  """The real gridded loader: values of the stored forecast at that time."""
  N = np.array(['2020-01-01T00', '2020-01-01T12', '2020-01-02T00'], 'datetime64[ns]')
  leads = np.arange(0, 49, 6).astype('timedelta64[h]').astype('timedelta64[ns]')
  v = h.floats('v', (3, len(leads)), nan=True)
  ds = xr.Dataset({'t': (('time', 'prediction_timedelta'), v)}, coords={'time': N, 'prediction_timedelta': leads})
  base_ = int(N[0].astype(HOUR).astype('int64'))
  k = h.ints('query', (1,), base_ // 6, base_ // 6 + 8)
  Q = (k * 6).astype(HOUR).astype('datetime64[ns]')
  lat = h.choice('latency', [0, 5, 6, 12])
  lo = X.PredictionsFromXarray(ds=ds, rename_variables={'t': 'u'} if renamed else None, variables=['u' if renamed else 't'],
                               add_nan_mask=True)
  L = np.timedelta64(lat, 'h')
  w = W.XarrayConstantLatencyWrapper(lo, L) if cls == 'xarray' else W.ConstantLatencyWrapper(lo, L, N)
  q = f_mul(fcells(k)[0], lift_f(6))
  n = [lift_f(base_ + 12 * i) for i in range(3)]
  some, nom = best(n, lift_f(lat), q)
  ask = np.array([0, 12], 'timedelta64[h]')
  if not h.is_true(some):
    with h.raises('nothing available', ValueError):
      w.load_chunk(Q, ask)
    return
  a = cells(v)
  r = w.load_chunk(Q, ask)['u' if renamed else 't'].transpose('init_time', 'lead_time')
  def at(j):
    e = NAN
    for i in range(3):
      for m in range(len(leads)):
        hit = b_and(f_eq(nom, n[i]), f_eq(f_add(lift_f(int(ask[j].astype('int64'))), f_sub(q, nom)), lift_f(6 * m)))
        e = f_ite(hit, a[i, m], e)
    return e
  e = [at(0), at(1)]
  h.eq('values', r, wrapcells(np.asarray([e], dtype=object)))
  h.eq('mask', r.mask, wrapcells(np.asarray([[b_not(x.nan) for x in e]], dtype=object)))
  it, lt = (fcells(minutes(np.asarray(r[c].data))) for c in ('init_time', 'lead_time'))
  h.true('labels', b_and(f_eq(it[0], f_mul(q, lift_f(60))), f_eq(lt[0], ZERO), f_eq(lt[1], lift_f(720))))


for cls, ren in (('xarray', True), ('constant', False)):
  SPEC.add(f'stored forecasts[{cls}]', (lambda *a: lambda h: stored(h, *a))(cls, ren), cost=2)


@SPEC.harness('options of the wrapped loader')
def h_options(h):
  """Processing, masks and interpolation of the wrapped loader still apply."""
  v = h.floats('v', (2, 2), nan=True)
  N = np.array(['2020-01-01T00', '2020-01-01T12'], 'datetime64[ns]')
  leads = np.array([0, 12], 'timedelta64[h]').astype('timedelta64[ns]')
  ds = xr.Dataset({'u': (('init_time', 'lead_time'), v)}, coords={'init_time': N, 'lead_time': leads})
  mask, vals = h.choice('mask', [False, True]), h.choice('values as coords', [False, True])
  class Twice(X.base.interpolations.Interpolation):
    def interpolate_data_array(self, da, reference=None):
      return da * 2
  lo = X.PredictionsFromXarray(ds=ds, rename_dimensions=None, add_nan_mask=mask, interpolation=Twice(),
                               process_chunk_fn=lambda c: {'w': c['u'] + 1}, add_values_to_coords=vals)
  w = W.ConstantLatencyWrapper(lo, np.timedelta64(12, 'h'), N)
  r = w.load_chunk(N[1:], np.array([0], 'timedelta64[h]'))
  h.true('variables', list(r) == ['w'])
  e = f_mul(f_add(cells(v)[0, 1], ONE), lift_f(2))
  h.eq('value', r['w'].data.reshape((1,)), wrapcells([e]))
  h.true('mask', ('mask' in r['w'].coords) == mask)
  if mask:
    h.eq('mask value', r['w'].mask.data.reshape((1,)), wrapcells([b_not(e.nan)]))
  h.true('values', ('values_as_coord' in r['w'].coords) == vals)
  if vals and 'values_as_coord' in r['w'].coords:
    h.eq('coordinate', r['w'].values_as_coord.data.reshape((1,)), wrapcells([e]))


@SPEC.harness('lead times are required')
def h_need(h):
  N, n = times(h, 'nominal', 1)
  w = W.ConstantLatencyWrapper(Tagged(0), np.timedelta64(0, 'h'), N)
  with h.raises('none', ValueError):
    w.load_chunk(N, None)
