"""C27: the benchmark evaluation script (public_benchmark/run_benchmark_evaluation.py)."""
import contextlib
import inspect
import functools
import importlib.util
import os
import sys
import types
from unittest import mock
import pandas as pd
import weatherbenchX
from checks.common import *
from symx import minibeam
from apache_beam.internal import pickler
import apache_beam as beam
from weatherbenchX import beam_pipeline, beam_utils, weighting
from weatherbenchX.metrics import categorical, deterministic, probabilistic, wrappers, base as mbase

SPEC = Spec(
    'C27',
    functions=['public_benchmark/run_benchmark_evaluation.py: main, REGIONS',
               'public_benchmark/public_configs.py: configurations, select_first_member',
               'beam_pipeline.define_pipeline', 'data_loaders.xarray_loaders', 'aggregation.Aggregator',
               'binning.Regions', 'metrics'],
    bounds='2-3 latitudes x 2 longitudes, 0-3 levels, 1-2 initialisations, 1-2 lead times, 1-4 variables, 2-30 members; '
           'every value of predictions, targets and climatologies symbolic (NaN where masked); every '
           'combination of store latitude order, time chunking and flags listed per harness',
    assumptions=['the area weights are exact small numbers here (C06 decides the real ones)',
                 'the land mask is 0/1, regions are tested away from their edges (C04 decides them)',
                 'SEEPS, CRPS and spread statistics are those of the library (C11, C13, C14 decide them)',
                 'stores are opened with xarray.open_zarr and are in memory here'],
    stubs=['xarray.open_zarr: the in-memory stores of the harness', 'beam.Pipeline: the Beam interpreter of C20',
           'GridAreaWeighting.weights: exact weights', 'beam_utils.atomic_write and Dataset.to_netcdf: recorded',
           'command line flags and the configuration module'],
)

REPO = os.path.dirname(os.path.dirname(os.path.abspath(weatherbenchX.__file__)))
HOUR = np.timedelta64(1, 'h')


def load(name):
  from absl import app, flags  # app defines flags of its own
  path = os.path.join(REPO, 'public_benchmark', name + '.py')
  spec = importlib.util.spec_from_file_location('wbx_' + name, path)
  mod = importlib.util.module_from_spec(spec)
  def define(name, default=None, *args, **kw):
    FLAGS[name] = types.SimpleNamespace(value=default, default=default, name=name)
    return FLAGS[name]
  with contextlib.ExitStack() as st:
    for n in ('string', 'integer', 'bool', 'boolean', 'float', 'list', 'multi_string'):
      st.enter_context(mock.patch.object(flags, 'DEFINE_' + n, define))
    st.enter_context(mock.patch.object(flags, 'DEFINE_enum', lambda name, default, values, *a, **k: define(name, default)))
    spec.loader.exec_module(mod)
  return mod


FLAGS = {}
RB = load('run_benchmark_evaluation')
REQUEST = dict(config='c27_configs', target='era5', resolution='64x32', year='2020', output_dir='/out')
NAMES = dict(INIT_TIME_START='time_start', INIT_TIME_STOP='time_stop', INIT_TIME_FREQUENCY='time_frequency')
WEIGHT = {-50: 2.0, 10: 4.0, 45: 1.0}
# The regions as published (ECMWF scorecard regions and the additional ones).
PUBLISHED = {
    'global': (-90, 90, 0, 360), 'tropics': (-20, 20, 0, 360), 'northern-hemisphere': (20, 90, 0, 360),
    'southern-hemisphere': (-90, -20, 0, 360), 'europe': (35, 75, 347.5, 42.5), 'north-america': (25, 60, 240, 285),
    'north-atlantic': (25, 65, 290, 350), 'north-pacific': (25, 60, 145, 230), 'east-asia': (25, 60, 102.5, 150),
    'ausnz': (-45, -12.5, 120, 175), 'arctic': (60, 90, 0, 360), 'antarctic': (-90, -60, 0, 360),
    'northern-africa': (5, 32.5, 347.5, 37.5), 'southern-africa': (-30, 5, 12.5, 37.5),
    'south-america': (-40, 5, 285, 315), 'west-asia': (15, 60, 42.5, 102.5), 'south-east-asia': (-12.5, 25, 95, 125)}


def inside(name, lat, lon):
  a, b, c, d = PUBLISHED[name]
  return a <= lat <= b and (d - c == 360 or (c <= lon <= d if c <= d else lon >= c or lon <= d))


def weights(self, statistic):
  lat = statistic.latitude
  return xr.DataArray([WEIGHT[int(x)] for x in lat.values], dims='latitude', coords={'latitude': lat.values})


def launch(stores, configs, record=None, **flags):
  """Runs main(); returns [(path, dataset)] written, or the recorded pipeline arguments."""
  mod = types.ModuleType('c27_configs')
  for k in ('deterministic_prediction_configs', 'probabilistic_prediction_configs', 'target_configs', 'climatology_configs'):
    setattr(mod, k, configs.get(k, {}))
  out = []
  flags = {**REQUEST, **{NAMES.get(k, k.lower()): v for k, v in flags.items()}}
  assert set(flags) <= set(FLAGS), (flags, FLAGS)
  with contextlib.ExitStack() as st:
    put = lambda *a, **kw: st.enter_context(mock.patch.object(*a, **kw))
    st.enter_context(mock.patch.dict(sys.modules, {'c27_configs': mod}))
    for k, f in FLAGS.items():
      put(f, 'value', flags.get(k, f.default))
    put(RB, 'print', lambda *a, **k: None, create=True)
    put(xr, 'open_zarr', lambda path, *a, **k: stores[path].copy())
    put(weighting.GridAreaWeighting, 'weights', weights)
    put(beam, 'Pipeline', lambda *a, **k: contextlib.nullcontext(minibeam.root(minibeam.Schedule())))
    put(xr.Dataset, 'to_netcdf', lambda self, *a, **k: self)
    put(pickler, 'roundtrip', lambda x: x)
    put(beam_utils, 'atomic_write', lambda path, data, *a, **k: out.append((str(path), data)))
    if record is not None:
      sig = inspect.signature(beam_pipeline.define_pipeline)
      put(beam_pipeline, 'define_pipeline', lambda *a, **k: record(list(sig.bind(*a, **k).arguments.values())[1], str(
          sig.bind(*a, **k).arguments['out_path'])))
    RB.main(['x'])
  return out


class World:
  """Stores with symbolic values and direct access to every one of them."""

  def __init__(self, h, lats=(-50, 10, 45), lons=(0, 250), order=(1, 1, 1), lsm=None):
    self.h, self.lats, self.lons, self.order = h, lats, lons, order
    self.lsm = np.array([[0, 1], [1, 0], [1, 1]] if lsm is None else lsm)[:len(lats), :len(lons)]
    self.stores, self.cells = {}, {}

  def store(self, path, names, dims, flip=1, nan=False, land=False, prefix=None, no_level=()):
    """dims: ordered {dim: labels} before latitude and longitude."""
    h, ds = self.h, {}
    for v in names:
      dd = {d: l for d, l in dims.items() if not (d == 'level' and v in no_level)}
      shape = tuple(len(l) for l in dd.values()) + (len(self.lats), len(self.lons))
      x = h.floats(f'{prefix or path} {v}', shape, nan=nan)
      c = cells(x)
      keys = list(itertools.product(*dd.values()))
      self.cells[path, v] = {k: c.reshape((len(keys),) + shape[-2:])[i] for i, k in enumerate(keys)}
      ds[v] = (tuple(dd) + ('latitude', 'longitude'), x)
    co = {**{d: np.array(l) if d not in ('time', 'prediction_timedelta') else np.array(l).astype(
        'M8[ns]' if d == 'time' else 'm8[ns]') for d, l in dims.items()}, 'latitude': list(self.lats), 'longitude': list(self.lons)}
    ds = xr.Dataset(ds, coords=co)
    if land:
      ds['land_sea_mask'] = (('latitude', 'longitude'), self.lsm.astype(float))
    self.stores[path] = ds.isel(latitude=slice(None, None, -1)) if flip < 0 else ds
    return self

  def regions(self, land=True):
    for r in PUBLISHED:
      for suffix in ('', '_land') if land else ('',):
        yield r + suffix, [(y, x) for y, la in enumerate(self.lats) for x, lo in enumerate(self.lons)
                           if inside(r, la, lo) and (not suffix or self.lsm[y, x])]


def times(inits, leads):
  return [(np.datetime64(i, 'h'), np.timedelta64(l, 'h')) for i in inits for l in leads]


def mean(w, cellset, fields):
  """Weighted mean over cells of fields (list of lat x lon arrays of values, None = masked)."""
  num, den = ZERO, ZERO
  for f in fields:
    part = ZERO
    for y, x in cellset:
      if f[y, x] is not None:
        wt = lift_f(Fraction(WEIGHT[w.lats[y]]))
        part, den = f_add(part, f_mul(wt, f[y, x])), f_add(den, wt)
    num = f_add(num, part)
  return f_div(num, den) if cellset else NAN


def table(h, w, out, name, levels, inits, leads, temporal, value):
  """value(cellset, inits, lead, level) for every region, lead time (and init)."""
  if name not in out:
    h.true(f'{name} written', False, str(list(out.data_vars)))
    return
  got = out[name]
  want_dims = ['region', 'lead_time'] + (['init_time'] if temporal else []) + (['level'] if levels else [])
  h.true(f'{name} dims', set(got.dims) == set(want_dims), str(got.dims))
  regs = list(w.regions())
  h.true(f'{name} regions', sorted(got.region.values) == sorted(r for r, _ in regs), str(got.region.values))
  h.true(f'{name} leads', sorted(got.lead_time.values) == sorted(np.array(leads, 'm8[h]').astype('m8[ns]')), str(got.lead_time.values))
  if temporal:
    h.true(f'{name} inits', sorted(got.init_time.values) == sorted(np.array(inits, 'M8[h]').astype('M8[ns]')))
  if levels:
    h.true(f'{name} levels', sorted(got.level.values) == sorted(levels), str(got.level.values))
  g = cells(got.transpose(*want_dims))
  at = lambda d, x: list(got[d].values).index(x)
  gs, es = [], []
  for r, cs in regs:
    for l in leads:
      for i in inits if temporal else [None]:
        for k in levels or [None]:
          j = [at('region', r), at('lead_time', np.timedelta64(l, 'h').astype('m8[ns]'))]
          if temporal:
            j.append(at('init_time', np.datetime64(i, 'h').astype('M8[ns]')))
          if k is not None:
            j.append(at('level', k))
          gs.append(g[tuple(j)])
          es.append(value(cs, [i] if temporal else inits, l, k))
  h.eq(name, wrapcells(objarr((len(gs),), lambda n: gs[n])), wrapcells(objarr((len(es),), lambda n: lift_f(es[n]))))


INITS = ['2020-02-28T12', '2020-02-29T00']
SPAN = dict(INIT_TIME_START='2020-02-28T12', INIT_TIME_STOP='2020-02-29T12')
U, V, T2 = '10m_u_component_of_wind', '10m_v_component_of_wind', '2m_temperature'


def valid_times(inits, leads):
  return sorted({np.datetime64(i, 'h') + np.timedelta64(l, 'h') for i in inits for l in leads})


def climatology(w, names, at, flip, levels=None, path='clim.zarr', seeps=()):
  """Climatology by hour and day of year, with days that are not needed."""
  days = sorted({pd.Timestamp(t).dayofyear for t in at} | {1})
  hours = [0, 6, 12, 18]
  w.store(path, names, {'hour': hours, **({'level': levels} if levels else {}), 'dayofyear': days}, flip, no_level=SURFACE)
  return w


def scores(h, w, out, names, levels, inits, leads, temporal, P, T, clim='clim.zarr', vectors=()):
  """The deterministic scores by their definitions; P, T(v, init, lead, level) -> lat x lon cells or None."""
  def C(v, i, l, k):
    t = pd.Timestamp(np.datetime64(i, 'h') + np.timedelta64(l, 'h'))
    key = (t.hour,) + ((k,) if k is not None else ()) + (t.dayofyear,)
    return w.cells[clim, v][key]
  grid = lambda f: objarr((len(w.lats), len(w.lons)), f)
  op = lambda f, *a: grid(lambda y, x: None if any(b[y, x] is None for b in a) else f(*[b[y, x] for b in a]))
  sq = lambda x: f_mul(x, x)
  m = lambda cs, ii, f: mean(w, cs, [f(i) for i in ii])
  for v in names:
    lv = levels if levels and v not in SURFACE else None
    err = lambda i, l, k: op(f_sub, P(v, i, l, k), T(v, i, l, k))
    pan = lambda i, l, k: op(f_sub, P(v, i, l, k), C(v, i, l, k))
    tan = lambda i, l, k: op(f_sub, T(v, i, l, k), C(v, i, l, k))
    mse = lambda cs, ii, l, k: m(cs, ii, lambda i: op(sq, err(i, l, k)))
    act = lambda cs, ii, l, k: m(cs, ii, lambda i: op(sq, pan(i, l, k)))
    tact = lambda cs, ii, l, k: m(cs, ii, lambda i: op(sq, tan(i, l, k)))
    cov = lambda cs, ii, l, k: m(cs, ii, lambda i: op(f_mul, pan(i, l, k), tan(i, l, k)))
    for name, f in {
        'bias': lambda cs, ii, l, k: m(cs, ii, lambda i: err(i, l, k)), 'mse': mse,
        'rmse': lambda *a: core.f_sqrt(mse(*a)), 'prediction_activity': lambda *a: core.f_sqrt(act(*a)),
        'acc': lambda *a: f_div(cov(*a), f_mul(core.f_sqrt(act(*a)), core.f_sqrt(tact(*a))))}.items():
      table(h, w, out, f'{name}.{v}', lv, inits, leads, temporal, f)
  for name, (u, v) in dict(vectors).items():
    lv = levels if levels and u not in SURFACE else None
    e = lambda n, i, l, k: op(f_sub, P(n, i, l, k), T(n, i, l, k))
    table(h, w, out, f'vector_rmse.{name}', lv, inits, leads, temporal, lambda cs, ii, l, k: core.f_sqrt(
        m(cs, ii, lambda i: op(f_add, op(sq, e(u, i, l, k)), op(sq, e(v, i, l, k))))))
  want = {f'{s}.{v}' for s in ('bias', 'mse', 'rmse', 'prediction_activity', 'acc') for v in names}
  want |= {f'vector_rmse.{n}' for n in dict(vectors)}
  got = {v for v in out.data_vars if not v.startswith('seeps')}
  h.true('scores', got == want, f'{sorted(got ^ want)}')


def one_file(h, out, name):
  h.true('one file of that name', [p for p, _ in out] == [name], str([p for p, _ in out]))
  return out[0][1]


SURFACE = (U, V, T2, 'total_precipitation_6hr', 'total_precipitation_24hr', 'mean_sea_level_pressure', '10m_wind_speed')


def forecast(h, temporal=False, names=(U, V, T2), upper=('temperature',), chunks=(1, 12), order=(1, 1, 1), leads=(0, 6),
             default_leads=False, levels=(500,), stored=(300, 500, 850), inits=INITS, lats=(-50, 10, 45), vectors=None, kind='hres',
             target='era5'):
  """A forecast model against targets; each has a variable the other lacks."""
  core.ctx() and setattr(core.ctx(), 'reps', {})
  w = World(h, order=order, lats=lats)
  names = [*names, *upper]
  at = valid_times(inits, [0, *leads] if kind == 'persistence' else leads)
  stored, H_ = list(stored), lambda l: np.timedelta64(l, 'h')
  w.store('era5.zarr', [*names, 'mean_sea_level_pressure'], {'time': at + [np.datetime64('2020-06-01T00')], 'level': stored},
          order[1], land=True, no_level=SURFACE)
  if target != 'era5':               # its own mask is not the one the regions use
    w.store('analysis.zarr', [*names, 'mean_sea_level_pressure'], {'time': at, 'level': stored}, no_level=SURFACE)
    ones = xr.ones_like(w.stores['era5.zarr'].land_sea_mask)
    w.stores['analysis.zarr']['land_sea_mask'] = ones
  held = sorted({0, 6, *leads}) if not default_leads else list(leads)
  w.store('hres.zarr', [*names, '10m_wind_speed'], {
      'time': [np.datetime64(i, 'h') for i in [*inits, '2020-02-29T12']], 'prediction_timedelta': [H_(l) for l in held],
      'level': stored}, order[0], no_level=SURFACE)
  climatology(w, names, at, order[2], stored)
  cfg = dict(deterministic_prediction_configs={'hres_64x32_2020': {'path': 'hres.zarr', 'variables': [*names, '10m_wind_speed']}},
             target_configs={'era5_64x32': {
                 'path': 'era5.zarr', 'variables': (['mean_sea_level_pressure'] if kind != 'persistence' else []) + names[::-1]}},
             climatology_configs={f'{target}_64x32_2020': None, 'era5_64x32_2020': {'path': 'clim.zarr', 'variables': list(names)}})
  if target != 'era5':
    cfg['target_configs'][f'{target}_64x32'] = {'path': f'{target}.zarr', 'variables': [*names, 'mean_sea_level_pressure']}
  if levels is not None:
    cfg['deterministic_prediction_configs']['hres_64x32_2020']['levels'] = list(levels)
  levels = list(levels) if levels is not None else [500, 700, 850]
  lead = {} if default_leads else dict(LEAD_TIME_START=leads[0], LEAD_TIME_STOP=leads[-1] + 1)
  stop = str(np.datetime64(inits[-1], 'h') + H_(12))
  out = launch(w.stores, cfg, PREDICTION=kind, TARGET=target, TEMPORAL=temporal, INIT_TIME_CHUNK_SIZE=chunks[0],
               LEAD_TIME_CHUNK_SIZE=chunks[1], INIT_TIME_START=inits[0], INIT_TIME_STOP=stop, **lead)
  ds = one_file(h, out, f'/out/{kind}_vs_{target}_64x32_{inits[0]}_{stop}' + ('_temporal' if temporal else '') + '.nc')
  lev = lambda k: () if k is None else (k,)
  P = lambda v, i, l, k: w.cells['hres.zarr', v][(np.datetime64(i, 'h'), H_(l)) + lev(k)]
  T = lambda v, i, l, k: w.cells[f'{target}.zarr', v][(np.datetime64(i, 'h') + H_(l),) + lev(k)]
  vec = vectors or {}
  if kind == 'persistence':
    P = lambda v, i, l, k: w.cells['era5.zarr', v][(np.datetime64(i, 'h'),) + lev(k)]
  if kind == 'climatology':
    hd = lambda i, l: pd.Timestamp(np.datetime64(i, 'h') + H_(l))
    P = lambda v, i, l, k: w.cells['clim.zarr', v][(hd(i, l).hour,) + lev(k) + (hd(i, l).dayofyear,)]
  scores(h, w, ds, names, levels, inits, leads, temporal, P, T, vectors=vec)


def ensemble(h, kind='ens', members=2, which=None):
  """Ensemble scores by their definitions (fair CRPS, unbiased spread and error)."""
  core.ctx() and setattr(core.ctx(), 'reps', {})
  w = World(h, lats=(-50, 45), lons=(0,), lsm=[[0], [1]])
  i, l = INITS[1], 6
  v, at = 'temperature', np.datetime64(i, 'h') + np.timedelta64(l, 'h')
  t = pd.Timestamp(at)
  if kind == 'ens':
    w.store('ens.zarr', [v], {'number': list(range(members)), 'time': [np.datetime64(i, 'h')],
                              'prediction_timedelta': [np.timedelta64(l, 'h')], 'level': [500]})
    w.store('era5.zarr', [v], {'time': [at], 'level': [500]}, land=True)
    X = [w.cells['ens.zarr', v][m, np.datetime64(i, 'h'), np.timedelta64(l, 'h'), 500] for m in range(members)]
  else:
    # the same day of the year and hour in each of 1990-2019
    ys = [np.datetime64(str(y)) + np.timedelta64((t.dayofyear - 1) * 24 + t.hour, 'h') for y in range(1990, 2020)]
    w.store('era5.zarr', [v], {'time': [ys[0] - np.timedelta64(6, 'h'), *ys, ys[-1] + np.timedelta64(6, 'h'), at], 'level': [500]}, land=True)
    X = [w.cells['era5.zarr', v][y, 500] for y in ys]
  Y = w.cells['era5.zarr', v][at, 500]
  climatology(w, [v], [at], 1, [500])
  cfg = dict(probabilistic_prediction_configs={'ens_64x32_2020': {'path': 'ens.zarr', 'variables': [v], 'levels': [500]}},
             target_configs={'era5_64x32': {'path': 'era5.zarr', 'variables': [v], 'levels': [500]}},
             climatology_configs={'era5_64x32_2020': {'path': 'clim.zarr', 'variables': [v]}})
  out = launch(w.stores, cfg, PREDICTION=kind, LEAD_TIME_START=l, LEAD_TIME_STOP=l + 1, INIT_TIME_START=i,
               INIT_TIME_STOP=str(at))
  ds = one_file(h, out, f'/out/{kind}_vs_era5_64x32_{i}_{at}.nc')
  names = ('crps', 'unbiased_spread_skill', 'unbiased_mean_rmse', 'mean_rmse')
  h.true('scores', set(ds.data_vars) == {f'{n}.{v}' for n in names}, str(list(ds.data_vars)))
  M = len(X)
  K = lambda x: lift_f(Fraction(x))
  total = lambda xs: functools.reduce(f_add, xs)
  grid = lambda f: objarr(Y.shape, lambda y, x: f([m[y, x] for m in X], Y[y, x]))
  avg = lambda xs: f_div(total(xs), K(M))
  sq = lambda x: f_mul(x, x)
  var = lambda xs: f_div(total([sq(f_sub(x, avg(xs))) for x in xs]), K(M - 1))
  err = lambda xs, y: sq(f_sub(avg(xs), y))
  crps = lambda xs, y: f_sub(avg([core.f_abs(f_sub(x, y)) for x in xs]), f_div(
      total([core.f_abs(f_sub(a, b)) for n, a in enumerate(xs) for b in xs[:n]]), K(M * (M - 1))))
  m = lambda cs, f: mean(w, cs, [grid(f)])
  unb = lambda cs: m(cs, lambda xs, y: f_sub(err(xs, y), f_div(var(xs), K(M))))
  defs = {'crps': lambda cs, *_: m(cs, crps), 'mean_rmse': lambda cs, *_: core.f_sqrt(m(cs, err)),
          'unbiased_mean_rmse': lambda cs, *_: core.f_sqrt(unb(cs)),
          'unbiased_spread_skill': lambda cs, *_: core.f_sqrt(f_div(m(cs, lambda xs, y: var(xs)), unb(cs)))}
  for n in which or names:
    table(h, w, ds, f'{n}.{v}', [500], [i], [l], False, defs[n])


def periods(h):
  """Initialisation and lead times evaluated, from the year and the options."""
  day = np.timedelta64(24, 'h')
  year = h.choice('year', ['2018', '2020', '2022'])
  given = h.choice('times', [None, ('2020-02-27', '2020-03-01', None), ('2020-02-27T06', '2020-03-01T07', 6)])
  leads = h.choice('leads', [None, (0, 24, 6), (12, 37, 12)])
  names = ['hres', 'excarta', 'aurora', 'baguan', 'fuxi', 'persistence', 'climatology', 'probabilistic_climatology']
  w = World(h, lats=(-50,), lons=(0,), lsm=[[0]])
  w.store('m.zarr', ['temperature'], {'time': [np.datetime64('2020-01-01', 'h')], 'prediction_timedelta': [
      np.timedelta64(x, 'h') for x in (6, 12, 30)], 'level': [500, 700, 850]})
  w.store('era5.zarr', ['temperature'], {'time': [np.datetime64('2020-01-01', 'h')], 'level': [500, 700, 850]}, land=True)
  w.store('clim.zarr', ['temperature'], {'hour': [0], 'dayofyear': [1]})
  one = lambda path: {'path': path, 'variables': ['temperature']}
  for name in names:
    cfg = dict(deterministic_prediction_configs={f'{name}_64x32_{year}': one('m.zarr')},
               target_configs={'era5_64x32': one('era5.zarr'), 'analysis_64x32': one('m.zarr')},
               climatology_configs={f'era5_64x32_{year}': one('clim.zarr')})
    got = {}

    def record(chunks, path):
      got.update(n=got.get('n', 0) + 1, path=path, pairs=[
          (i, l) for a, b in chunks for i in np.asarray(a).astype('M8[h]') for l in np.asarray(b).astype('m8[h]')])
    flags = dict(PREDICTION=name, YEAR=year, INIT_TIME_CHUNK_SIZE=100, LEAD_TIME_CHUNK_SIZE=7)
    if given:
      flags.update(INIT_TIME_START=given[0], INIT_TIME_STOP=given[1], INIT_TIME_FREQUENCY=given[2])
    if leads:
      flags.update(LEAD_TIME_START=leads[0], LEAD_TIME_STOP=leads[1], LEAD_TIME_FREQUENCY=leads[2])
    launch(w.stores, cfg, record=record, **flags)
    h.true(f'{name}: one evaluation', got.get('n') == 1)
    t, stop = np.datetime64(f'{year}-01-01', 'h'), np.datetime64(f'{int(year) + 1}-01-01', 'h')
    step = np.timedelta64(24 if name == 'excarta' else 12, 'h')
    if year == '2022' or name in ('fuxi', 'excarta'):
      stop = np.datetime64(f'{year}-12-16', 'h')
      if name == 'aurora':
        t += np.timedelta64(12, 'h')
    elif name == 'baguan' and year == '2020':
      stop = np.datetime64('2020-12-30T12', 'h')
    if given:
      t, stop = np.datetime64(given[0], 'h'), np.datetime64(given[1], 'h')
      step = np.timedelta64(given[2], 'h') if given[2] else step
    inits = []
    while t < stop:
      inits.append(t)
      t += step
    if leads:
      ls = [x for x in range(leads[0], leads[1]) if (x - leads[0]) % leads[2] == 0]
    elif name in ('persistence', 'climatology', 'probabilistic_climatology'):
      ls = [6 * x for x in range(61)]
    else:
      ls = [6, 12, 30]
    want = {(i, np.timedelta64(l, 'h')) for i in inits for l in ls}
    h.true(f'{name}: forecasts, each once', set(got['pairs']) == want and len(got['pairs']) == len(want),
           f'{year} {given} {leads}: {len(got["pairs"])} of {len(want)}; {sorted(set(got["pairs"]) ^ want)[:3]}')
    when = f'{given[0]}_{given[1]}' if given else year
    h.true(f'{name}: file name', got['path'] == f'/out/{name}_vs_era5_64x32_{when}.nc', got['path'])
  for flags in (dict(INIT_TIME_START='2020-01-01'), dict(INIT_TIME_STOP='2020-01-02'), dict(LEAD_TIME_START=0), dict(LEAD_TIME_STOP=6)):
    try:
      launch(w.stores, cfg, record=lambda *a, **k: None, PREDICTION=name, YEAR=year, **flags)
      error = False
    except ValueError:
      error = True
    h.true(f'{flags}: error', error)


def precipitation(h):
  """SEEPS of each accumulation with its own dry threshold, where the climate has both dry and wet days."""
  both = ('total_precipitation_6hr', 'total_precipitation_24hr')
  mm = dict(zip(both, (0.1, 0.25)))
  w = World(h, lats=(45,), lons=(0, 250), lsm=[[1, 0]])
  names = [*h.choice('accumulations', [both, both[:1], both[1:]])]
  i, l = INITS[1], 12
  at = np.datetime64(i, 'h') + np.timedelta64(l, 'h')
  dims = {'time': [np.datetime64(i, 'h')], 'prediction_timedelta': [np.timedelta64(l, 'h')], 'level': [500, 700, 850]}
  w.store('m.zarr', names + ['temperature'], dims, no_level=SURFACE)
  w.store('era5.zarr', names + ['temperature'], {'time': [at], 'level': [500, 700, 850]}, land=True, no_level=SURFACE)
  climatology(w, names + ['temperature'], [at], 1, [500, 700, 850])
  clim = w.stores['clim.zarr']
  for v in names:
    clim[f'{v}_seeps_threshold'] = xr.DataArray(np.full(clim[v].shape, 0.002), dims=clim[v].dims)
    clim[f'{v}_seeps_dry_fraction'] = clim[f'{v}_seeps_threshold'] * 0 + xr.DataArray([.5, .95], dims='longitude')
  cfg = dict(deterministic_prediction_configs={'m_64x32_2020': {'path': 'm.zarr', 'variables': names + ['temperature']}},
             target_configs={'era5_64x32': {'path': 'era5.zarr', 'variables': names + ['temperature']}},
             climatology_configs={'era5_64x32_2020': {'path': 'clim.zarr', 'variables': names + ['temperature']}})
  out = launch(w.stores, cfg, PREDICTION='m', LEAD_TIME_START=l, LEAD_TIME_STOP=l + 1, INIT_TIME_START=i,
               INIT_TIME_STOP=str(at))
  ds = one_file(h, out, f'/out/m_vs_era5_64x32_{i}_{at}.nc')
  K = lambda x: lift_f(Fraction(x))
  mat = [[K(0), K(1), K(4)], [K(1), K(0), K(3)], [K(Fraction(8, 5)), K(Fraction(3, 5)), K(0)]]
  for v in names:
    p = w.cells['m.zarr', v][np.datetime64(i, 'h'), np.timedelta64(l, 'h')][0, 0]
    q = w.cells['era5.zarr', v][at,][0, 0]
    def cat(x):
      d, wet = f_le(x, lift_f(mm[v] / 1000.0)), f_le(lift_f(0.002), x)
      return [d, b_and(b_not(d), b_not(wet)), b_and(b_not(d), wet)]
    r = ZERO
    for a in range(3):
      for b in range(3):
        r = f_ite(b_and(cat(p)[a], cat(q)[b]), mat[a][b], r)
    grid = objarr((1, 2), lambda y, x: r if x == 0 else None)
    table(h, w, ds, f'seeps.{v}', None, [i], [l], False, lambda cs, *_: mean(w, cs, [grid]))
  h.true('scores', {n for n in ds.data_vars if n.startswith('seeps')} == {f'seeps.{v}' for v in names})


SHORT = dict(inits=INITS[:1], leads=(6,))
W10, W = {'10m_wind': (U, V)}, {'wind': ('u_component_of_wind', 'v_component_of_wind')}
for tmp in (False, True):
  SPEC.add(f'times and regions[temporal={tmp}]', (lambda tmp: lambda h: forecast(h, tmp, (T2,)))(tmp), cost=6)
SPEC.add('surface winds', lambda h: forecast(h, vectors=W10, **SHORT), cost=5)
SPEC.add('one wind component only', lambda h: forecast(h, False, h.choice('one', [(U, T2), (V,)]), **SHORT), cost=5)
SPEC.add('upper winds', lambda h: forecast(h, False, (), (*W['wind'], 'temperature'), vectors=W, levels=(850, 300), **SHORT), cost=5)
SPEC.add('both winds', lambda h: forecast(h, False, (U, V), W['wind'], vectors={**W, **W10}, lats=(-50, 45), **SHORT), cost=5)
SPEC.add('default levels', lambda h: forecast(h, False, (), levels=None, stored=(850, 700, 500, 300), **SHORT), cost=5)
SPEC.add('chunks', lambda h: forecast(h, False, (), chunks=h.choice('chunks', [(2, 1), (1, 1), (2, 12)])), cost=5)
SPEC.add('latitude order', lambda h: forecast(h, False, (), order=h.choice('order', [(-1, 1, -1), (1, -1, 1), (-1, -1, -1), (-1, -1, 1)]), **SHORT), cost=5)
SPEC.add('lead times of the store', lambda h: forecast(h, False, (), inits=INITS[:1], leads=(6, 18), default_leads=True), cost=4)

for kd in ('persistence', 'climatology'):
  SPEC.add(kd, (lambda kd: lambda h: forecast(h, False, (), inits=INITS[:1], leads=(6, 12), kind=kd, levels=None, stored=(850, 700, 500, 300), lats=(-50, 45)))(kd), cost=4)
for M in (2, 3):
  SPEC.add(f'ensemble[{M}]', (lambda M: lambda h: ensemble(h, 'ens', M))(M), cost=3)
SPEC.add('probabilistic climatology', lambda h: ensemble(h, 'probabilistic_climatology', which=('mean_rmse', 'unbiased_mean_rmse')), cost=4)
SPEC.add('periods', periods, cost=4)
SPEC.add('precipitation', precipitation, cost=5)
SPEC.add('analysis as the target', lambda h: forecast(h, False, (T2,), target='analysis', **SHORT), cost=5)
