"""C20: a distributed evaluation equals the single-pass evaluation."""
import itertools
from unittest import mock
from checks.common import *
from symx import minibeam
from apache_beam.internal import pickler
import apache_beam as beam
import xarray_beam as xbeam
from weatherbenchX import aggregation, beam_pipeline as BP, beam_utils, binning, time_chunks, weighting
from weatherbenchX.data_loaders import base, xarray_loaders as X
from weatherbenchX.metrics import base as mbase, deterministic

SPEC = Spec(
    'C20',
    functions=['beam_pipeline.define_pipeline', 'beam_pipeline.define_unaggregated_pipeline',
               'beam_pipeline.LoadPredictionsAndTargets',
               'beam_pipeline.ComputeStatisticsAggregateAndPrepareForCombine',
               'beam_pipeline.ConcatPerStatisticPerVariable', 'beam_pipeline.reconstruct_aggregation_state',
               'beam_pipeline.ComputeMetrics', 'beam_pipeline.ComputeAndFormatStatistics',
               'beam_pipeline._get_template_dataset', 'beam_utils.CombiningSum', 'beam_utils.GroupAll',
               'time_chunks.TimeChunks', 'aggregation.combining_sum'],
    bounds='up to 4 initialisation x 3 lead times with any values (NaN where masking or skipping '
           'applies), 1 to 4 time chunks, every order of up to 4 chunks, every split into bundles, three '
           'merge shapes, empty accumulators, either order of groups',
    assumptions=['the real DoFns and CombineFns are run by a small interpreter of the Beam primitives '
                 '(Create, ParDo, GroupByKey, Combine) whose schedule is a solver choice',
                 'times are in ascending order', 'an unmasked NaN outside a bin is documented to make '
                 'the bin NaN, so binned harnesses only have masked NaN',
                 'serialisation to NetCDF and Zarr is not performed: the datasets handed to the writers '
                 'are checked'])

DAY = np.timedelta64(1, 'D')
T0 = np.datetime64('2020-02-27', 'ns')


def datasets(h, ni, nl, nan=False, variables=('u',), step=1):
  I = T0 + np.arange(ni) * step * DAY
  L = (np.arange(nl) * DAY).astype('m8[ns]')
  V = T0 + np.arange((ni - 1) * step + nl) * DAY
  p = {v: (('init_time', 'lead_time', 'x'), h.floats('p' + v, (ni, nl, 2), nan=nan)) for v in variables}
  t = {v: (('time', 'x'), h.floats('t' + v, (len(V), 2), nan=nan)) for v in variables}
  P = xr.Dataset(p, coords=dict(init_time=I, lead_time=L, x=[0, 1]))
  T = xr.Dataset(t, coords=dict(time=V, x=[0, 1]))
  return I, L, P, T


def schedule(h, n, few=False):
  perms = list(itertools.permutations(range(n)))
  if few:
    perms = [perms[0], perms[-1], perms[len(perms) // 2]][:len(perms)]
  perm = h.choice('order', perms)
  splits = list(itertools.product([False, True], repeat=n - 1)) if n > 1 else [()]
  if few:
    splits = [splits[0], splits[-1], splits[len(splits) // 2]][:len(splits)]
  cut = h.choice('bundles', splits)
  nb = sum(cut) + 1
  tree = h.choice('merge', ['flat', 'left', 'right'] if nb > 2 else ['flat'])
  # empty accumulators and the order of groups vary with the other choices
  k = perms.index(perm) + len(cut) * 0 + sum(c << i for i, c in enumerate(cut))
  return minibeam.Schedule(perm, list(cut), tree, empty=k % 2 == 1, reverse=k % 3 == 1)


def run(h, times, lp, lt, metrics, agg, sched, want_state=True):
  """(metrics dataset, state dataset) written by the pipeline."""
  out = []
  with mock.patch.object(xr.Dataset, 'to_netcdf', lambda self, *a, **k: self), \
      mock.patch.object(pickler, 'roundtrip', lambda x: x), \
      mock.patch.object(beam_utils, 'atomic_write', lambda path, data, *a, **k: out.append((str(path), data))):
    BP.define_pipeline(minibeam.root(sched), times, lp, lt, metrics, agg, out_path='m.nc',
                       aggregation_state_out_path='s.nc')
  h.true('each file written once', sorted(p for p, _ in out) == ['m.nc', 's.nc'])
  out = dict(out)
  return out['m.nc'], out['s.nc']


def single(I, L, lp, lt, metrics, agg):
  t = lt.load_chunk(I, L)
  p = lp.load_chunk(I, L, t)
  st = agg.aggregate_statistics(mbase.compute_unique_statistics_for_all_metrics(metrics, p, t))
  return st.metric_values(metrics), st.to_dataset()


def same(h, label, got, want):
  """Same variables, dimensions, labels and values, up to the order of labels."""
  h.true(label + ' variables', set(got.data_vars) == set(want.data_vars), f'{set(got)} {set(want)}')
  for v in want.data_vars:
    a, b = got[v], want[v]
    h.true(f'{label} {v} dims', set(a.dims) == set(b.dims))
    idx = {}
    for d in b.dims:
      if d in b.coords:
        la, lb = list(a[d].values), list(b[d].values)
        h.true(f'{label} {v} {d}', len(la) == len(set(la)) and sorted(la) == sorted(lb), f'{la} {lb}')
        idx[d] = [la.index(x) for x in lb]
      else:
        h.true(f'{label} {v} {d} size', a.sizes[d] == b.sizes[d])
    h.eq(f'{label} {v}', a.isel(idx).transpose(*b.dims), b)


METRICS = {'mae': deterministic.MAE(), 'mse': deterministic.MSE(), 'bias': deterministic.Bias()}


def aggregated(h, reduce_dims, ic, lc, ni=4, nl=2, metrics=None, few=False, nan=False, variables=('u',), **kw):
  I, L, P, T = datasets(h, ni, nl, nan=nan, variables=variables)
  lp = X.PredictionsFromXarray(ds=P, rename_dimensions={})
  lt = X.TargetsFromXarray(ds=T, add_nan_mask=kw.get('masked', False))
  metrics = metrics or METRICS
  agg = aggregation.Aggregator(reduce_dims=reduce_dims, **kw)
  times = time_chunks.TimeChunks(I, L, init_time_chunk_size=ic, lead_time_chunk_size=lc)
  m, s = run(h, times, lp, lt, metrics, agg, schedule(h, len(times), few))
  m1, s1 = single(I, L, lp, lt, metrics, agg)
  same(h, 'state', s, s1)
  same(h, 'metrics', m, m1)
  return m, s, P, T, I, L


RED = {'both': ['init_time', 'lead_time', 'x'], 'init': ['init_time', 'x'], 'lead': ['lead_time', 'x'],
       'none': ['x'], 'times only': ['init_time', 'lead_time']}
for r in RED:
  for ic, lc in ((2, 1), (1, None), (3, None), (None, 1)):
    few = r != 'both' or (ic, lc) != (2, 1)
    SPEC.add(f'dense[{r},{ic}x{lc}]', (lambda r, ic, lc, few: lambda h: aggregated(h, RED[r], ic, lc, few=few))(r, ic, lc, few), cost=5)


@SPEC.harness('definition', cost=4)
def h_definition(h):
  """Against the formula instead of the single-pass code."""
  r = h.choice('reduce', ['both', 'init', 'none'])
  m, s, P, T, I, L = aggregated(h, RED[r], 2, 1, ni=3, metrics={'bias': deterministic.Bias()}, few=True)
  p, t = cells(P['u'].data), cells(T['u'].data)
  err = lambda i, l, x: f_sub(p[i, l, x], t[i + l, x])
  n = lambda a: lift_f(a)
  if r == 'both':
    exp = objarr((), lambda: f_div(fsum([err(i, l, x) for i in range(3) for l in range(2) for x in range(2)]), n(12)))
    dims = ()
  elif r == 'init':
    exp = objarr((2,), lambda l: f_div(fsum([err(i, l, x) for i in range(3) for x in range(2)]), n(6)))
    dims = ('lead_time',)
  else:
    exp = objarr((3, 2), lambda i, l: f_div(fsum([err(i, l, x) for x in range(2)]), n(2)))
    dims = ('init_time', 'lead_time')
  got = m['bias.u'].transpose(*dims)
  h.eq('bias', got, wrapcells(exp))
  for d, lab in (('init_time', I), ('lead_time', L)):
    if d in dims:
      h.true(d, np.array_equal(m[d].values, lab))


@SPEC.harness('rmse', cost=4)
def h_rmse(h):
  r = h.choice('reduce', ['both', 'init', 'none'])
  aggregated(h, RED[r], 1, None, ni=2, nl=1, metrics={'rmse': deterministic.RMSE(), 'mse': deterministic.MSE()})


@SPEC.harness('two variables', cost=4)
def h_vars(h):
  r = h.choice('reduce', ['both', 'lead'])
  aggregated(h, RED[r], 1, None, ni=2, nl=1, variables=('u', 'w'))


def nans(h, mode, r):
  kw = dict(masked=True) if mode == 'masked' else dict(skipna=True) if mode == 'skipna' else {}
  aggregated(h, RED[r], 1, None, ni=2, nl=2, nan=True, metrics={'mae': deterministic.MAE()}, **kw)


for mode in ('masked', 'skipna', 'propagate'):
  for r in ('both', 'init', 'none'):
    SPEC.add(f'missing[{mode},{r}]', (lambda m, r: lambda h: nans(h, m, r))(mode, r), cost=4)


class Rows(base.DataLoader):
  """Sparse stand-in: rows of a table that belong to the asked times."""

  def __init__(self, rows, values, coord_values=None, **kw):
    super().__init__(compute=False, **kw)
    self.rows, self.v = rows, values

  def _load_chunk_from_source(self, init_times, lead_times=None):
    k = [j for i in init_times for l in lead_times for j, r in enumerate(self.rows)
         if r[0] == i and r[1] == l]
    c = dict(init_time=('index', np.array([self.rows[j][0] for j in k], 'M8[ns]')),
             lead_time=('index', np.array([self.rows[j][1] for j in k], 'm8[ns]')),
             station=('index', np.array([self.rows[j][2] for j in k], '<U1')))
    return {n: xr.DataArray(v[np.array(k, int)], dims='index', coords=c) for n, v in self.v.items()}


COUNTS = {'even': [[1, 1], [1, 1]], 'ragged': [[2, 1], [0, 1]], 'late': [[0, 1], [1, 1]],
          'three': [[1, 0, 1], [1, 1, 0]]}


def sparse(h, counts, bins, ic, lc):
  I = T0 + np.arange(2) * DAY
  L = (np.arange(len(COUNTS[counts][0])) * DAY).astype('m8[ns]')
  rows = []
  for i in range(2):
    for l in range(len(L)):
      for k in range(COUNTS[counts][i][l]):
        rows.append((I[i], L[l], 'abc'[(i + l + k) % 3]))
  n = len(rows)
  # an unmasked NaN outside a bin is documented to spoil it: none here
  pv = {'u': h.floats('p', (n,))}
  tv = {'u': h.floats('t', (n,), nan=True)}
  lp, lt = Rows(rows, pv), Rows(rows, tv, add_nan_mask=True)
  bin_by = {'lead': [binning.ByExactCoord('lead_time')],
            'lead+station': [binning.ByExactCoord('lead_time'), binning.ByExactCoord('station')],
            'station': [binning.ByExactCoord('station')], 'none': None,
            'init': [binning.ByExactCoord('init_time')]}[bins]
  agg = aggregation.Aggregator(reduce_dims=['index'], bin_by=bin_by, masked=True)
  times = time_chunks.TimeChunks(I, L, init_time_chunk_size=ic, lead_time_chunk_size=lc)
  metrics = {'mae': deterministic.MAE()}
  m, s = run(h, times, lp, lt, metrics, agg, schedule(h, len(times), True))
  m1, s1 = single(I, L, lp, lt, metrics, agg)
  same(h, 'state', s, s1)
  same(h, 'metrics', m, m1)


for c in COUNTS:
  for b in ('lead', 'lead+station', 'station', 'none', 'init'):
    for ic, lc in ((1, None), (1, 1), (None, 1)):
      if c == 'three':
        ic, lc = {(1, None): (None, 2), (1, 1): (1, 2), (None, 1): (None, 1)}[ic, lc]
        if b == 'none' or (b != 'lead+station' and lc == 1):
          continue
      if c in ('ragged', 'three') or (ic, lc) == (1, None):
        SPEC.add(f'sparse[{c},{b},{ic}x{lc}]', (lambda c, b, i, l: lambda h: sparse(h, c, b, i, l))(c, b, ic, lc), cost=4)


class Rechunk(minibeam.Stub):
  """Records the plan; checks that every chunk fits it."""
  seen = []

  def __init__(self, dim_sizes, source_chunks, target_chunks, itemsize=4, **kw):
    super().__init__()
    if source_chunks.keys() != target_chunks.keys():
      raise ValueError('source_chunks and target_chunks have different keys')
    self.sizes, self.source, self.target = dict(dim_sizes), dict(source_chunks), dict(target_chunks)
    Rechunk.seen.append(self)

  def run(self, xs):
    for key, ds in xs:
      for d, n in ds.sizes.items():
        o = key.offsets.get(d, 0)
        c = self.source[d]
        c = self.sizes[d] if c == -1 else min(c, self.sizes[d])
        assert o % c == 0 and n == min(c, self.sizes[d] - o), (d, o, n, c)
    return xs


class ToZarr(minibeam.Stub):
  seen = []

  def __init__(self, store, template=None, zarr_chunks=None, **kw):
    super().__init__()
    self.store, self.template, self.zarr_chunks = store, template, dict(zarr_chunks)
    ToZarr.seen.append(self)

  def run(self, xs):
    self.chunks = xs
    return []


def lazy(ds):
  return xr.Dataset({k: (v.dims, np.zeros(v.shape)) for k, v in ds.items()}, coords=ds.coords)


def raw_run(h, times, lp, lt, metrics, sched, **kw):
  Rechunk.seen, ToZarr.seen = [], []
  with mock.patch.object(pickler, 'roundtrip', lambda x: x), mock.patch.object(xbeam, 'Rechunk', Rechunk), \
      mock.patch.object(xbeam, 'ChunksToZarr', ToZarr), \
      mock.patch.object(xbeam, 'make_template', lazy if h.sym else xbeam.make_template):
    BP.define_unaggregated_pipeline(minibeam.root(sched), times, lp, lt, metrics, 'out.zarr', **kw)
  h.true('one store', len(ToZarr.seen) == 1 and ToZarr.seen[0].store == 'out.zarr')
  return Rechunk.seen[-1], ToZarr.seen[0]


class MeanOver(mbase.PerVariableStatistic):
  """A statistic without one of the time dimensions."""

  def __init__(self, dim):
    self.dim = dim

  @property
  def unique_name(self):
    return f'MeanOver_{self.dim}'

  def _compute_per_variable(self, predictions, targets):
    return (predictions - targets).mean(self.dim)


class MeanMetric(mbase.PerVariableMetric):

  def __init__(self, dim):
    self.dim = dim

  @property
  def statistics(self):
    return {'s': MeanOver(self.dim)}

  def _values_from_mean_statistics_per_variable(self, statistic_values):
    return statistic_values['s']


def unaggregated(h, ic, lc, kind):
  ni, nl = (3, 2) if kind in ('one', 'two') else (3, 3)
  gone = {'no init': 'init_time', 'no lead': 'lead_time'}.get(kind.replace(' only', ''))
  I, L, P, T = datasets(h, ni, nl, nan=True, variables=('u', 'w') if kind == 'two' else ('u',))
  lp = X.PredictionsFromXarray(ds=P, rename_dimensions={})
  lt = X.TargetsFromXarray(ds=T)
  Q = L
  if kind == 'slice':
    Q = slice(L[0], L[1])
    lt = X.PredictionsFromXarray(ds=P * 2.0, rename_dimensions={})
  metrics = {} if kind.endswith('only') else {'rmse': deterministic.RMSE(), 'mae': deterministic.MAE()}
  if gone:
    metrics['mean'] = MeanMetric(gone)
  times = time_chunks.TimeChunks(I, Q, init_time_chunk_size=ic, lead_time_chunk_size=lc)
  called = []
  extra = h.choice('zarr chunks', [None, {'lead_time' if kind == 'no init only' else 'init_time': 1}])
  plan, z = raw_run(h, times, lp, lt, metrics, schedule(h, len(times), True), zarr_chunks=extra,
                    setup_fn=lambda: called.append(1))
  h.true('setup', len(called) == 2)
  t = lt.load_chunk(I, Q)
  p = lp.load_chunk(I, Q, t)
  stats = mbase.compute_unique_statistics_for_all_metrics(metrics, p, t)
  want = {f'{s}.{v}': da for s, d in stats.items() for v, da in d.items()}
  tm = z.template
  h.true('variables', set(tm.data_vars) == set(want))
  have = {d for da in want.values() for d in da.dims}
  lab = p['u']['lead_time'].values
  if 'init_time' in have:
    h.true('init times', np.array_equal(tm['init_time'].values, I))
  if 'lead_time' in have:
    h.true('lead times', np.array_equal(tm['lead_time'].values, lab))
  if {'init_time', 'lead_time'} <= have:
    h.true('valid times', np.array_equal(tm['valid_time'].transpose('init_time', 'lead_time').values, I[:, None] + lab[None]))
  full = dict(init_time=ic or ni, lead_time=lc or (len(L) if kind != 'slice' else -1), x=2)
  full = {d: n for d, n in full.items() if d in have}
  h.true('chunks', z.zarr_chunks == {**full, **(extra or {})}, f'{z.zarr_chunks}')
  for name, da in want.items():
    h.true('dims', set(tm[name].dims) == set(da.dims) and dict(tm[name].sizes) == dict(da.sizes))
    order = tm[name].dims
    da = da.transpose(*order)
    buf, hits = np.full(da.shape, None, dtype=object), np.zeros(da.shape, int)
    for key, ds in z.chunks:
      if key.vars != {name}:
        continue
      h.true('one variable', set(ds.data_vars) == {name})
      h.true('order in the chunk', ds[name].dims == order)
      sl = tuple(slice(key.offsets.get(d, 0), key.offsets.get(d, 0) + ds.sizes[d]) for d in order)
      buf[sl] = cells(ds[name])
      hits[sl] += 1
      for d in {'init_time', 'lead_time'} & set(order):
        h.true('labels ' + d, np.array_equal(ds[d].values, tm[d].values[sl[order.index(d)]]))
    h.true('each place written once', bool((hits == 1).all()))
    h.eq(name, wrapcells(buf), da)


for ic, lc, kind in ((2, 1, 'one'), (1, None, 'two'), (None, None, 'one'), (5, 1, 'one'), (2, None, 'slice'), (3, 4, 'one'),
                     (None, 2, 'no init'), (None, 1, 'no init only'), (2, None, 'no lead'), (1, None, 'no lead only')):
  SPEC.add(f'unaggregated[{ic}x{lc},{kind}]', (lambda i, l, k: lambda h: unaggregated(h, i, l, k))(ic, lc, kind), cost=4)


@SPEC.harness('outputs')
def h_outputs(h):
  I, L, P, T = datasets(h, 1, 2)
  lp, lt = X.PredictionsFromXarray(ds=P, rename_dimensions={}), X.TargetsFromXarray(ds=T)
  agg = aggregation.Aggregator(reduce_dims=RED['both'])
  times = time_chunks.TimeChunks(I, L)
  which = h.choice('outputs', ['metrics', 'state', 'neither'])
  out, called = [], []
  kw = {'metrics': dict(out_path='m'), 'state': dict(aggregation_state_out_path='s'), 'neither': {}}[which]
  with mock.patch.object(xr.Dataset, 'to_netcdf', lambda self, *a, **k: self), \
      mock.patch.object(pickler, 'roundtrip', lambda x: x), \
      mock.patch.object(beam_utils, 'atomic_write', lambda path, data, *a, **k: out.append((str(path), data))):
    go = lambda: BP.define_pipeline(minibeam.root(minibeam.Schedule()), times, lp, lt, METRICS, agg,
                                    setup_fn=lambda: called.append(1), **kw)
    if which == 'neither':
      with h.raises('no output', ValueError):
        go()
      return
    go()
  h.true('setup', len(called) == 1)
  m, s = single(I, L, lp, lt, METRICS, agg)
  h.true('one file', [p for p, _ in out] == ['m' if which == 'metrics' else 's'])
  same(h, which, out[0][1], m if which == 'metrics' else s)
