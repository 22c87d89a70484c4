"""C26: combination of benchmark result files (public_benchmark/combine_results.py)."""
import contextlib
import importlib.util
import os
import shutil
import tempfile
import types
from unittest import mock
import weatherbenchX
from checks.common import *

SPEC = Spec(
    'C26',
    functions=['public_benchmark/combine_results.py: open_nc, process_results, main, name tables'],
    bounds='any subset of up to 4 result files out of all models, years and resolutions; 1-3 variables with and without '
           'level, 1-3 metrics, 1-2 regions, levels and lead times that differ between files; all values symbolic or NaN',
    assumptions=['each result file holds `metric.variable` arrays over region, lead_time and possibly level',
                 'reading NetCDF and writing zarr are replaced in the symbolic runs and real in the concrete runs'],
    stubs=['fsspec.open, xarray.open_dataset, Dataset.chunk, Dataset.to_zarr (symbolic runs only)', 'command line flags'],
)

REPO = os.path.dirname(os.path.dirname(os.path.abspath(weatherbenchX.__file__)))


def load():
  path = os.path.join(REPO, 'public_benchmark', 'combine_results.py')
  from absl import flags
  spec = importlib.util.spec_from_file_location('wbx_combine_results', path)
  mod = importlib.util.module_from_spec(spec)
  for n in ('mode', 'input_dir', 'output_dir'):
    if n in flags.FLAGS:
      delattr(flags.FLAGS, n)
  spec.loader.exec_module(mod)
  return mod


CR = load()
REAL = xr.open_dataset, xr.Dataset.chunk, xr.Dataset.to_zarr
FSSPEC = CR.fsspec


def chunk(ds, chunks={}, **kw):
  extra = set(chunks) - set(ds.dims)
  if extra:
    raise ValueError(f'chunks keys {extra} not found in data dimensions')
  return ds


class World:
  """Input directory, output directory and flags of one run."""

  def __init__(self, h, mode):
    self.h = h
    self.files, self.out = {}, {}
    self.root = None if h.sym else tempfile.mkdtemp(prefix='c26-')
    self.inp = '/in' if h.sym else os.path.join(self.root, 'in')
    self.outp = '/out' if h.sym else os.path.join(self.root, 'out')
    self.mode = mode

  def add(self, name, ds):
    self.files[name] = ds
    if not self.h.sym:
      os.makedirs(self.inp, exist_ok=True)
      ds.to_netcdf(os.path.join(self.inp, name))

  def read(self):
    if self.h.sym:
      return self.out
    return {n: xr.open_zarr(os.path.join(self.outp, n)).load() for n in
            (os.listdir(self.outp) if os.path.isdir(self.outp) else ())}

  def open(self, fn, *a, **kw):
    d, n = os.path.split(fn)
    if d != self.inp or n not in self.files:
      raise FileNotFoundError(fn)
    return contextlib.nullcontext(n)

  def open_dataset(self, n, decode_timedelta=None, **kw):
    ds = self.files[n]
    if not decode_timedelta:
      ds = ds.assign_coords(lead_time=(ds.lead_time.values / np.timedelta64(1, 'h')).astype(int))
    return ds.copy()

  def to_zarr(self, ds, path, *a, **kw):
    d, n = os.path.split(path)
    assert d == self.outp, path
    self.out[n] = ds

  @contextlib.contextmanager
  def on(self, **names):
    v = lambda x: types.SimpleNamespace(value=x)
    world = self
    with contextlib.ExitStack() as st:
      put = lambda *a, **kw: st.enter_context(mock.patch.object(*a, **kw))
      put(CR, 'MODE', v(self.mode))
      put(CR, 'INPUT_DIR', v(self.inp))
      put(CR, 'OUTPUT_DIR', v(self.outp))
      put(CR, 'print', lambda *a: None, create=True)
      for k, x in names.items():
        put(CR, k, x)
      if self.h.sym:
        put(CR, 'fsspec', types.SimpleNamespace(open=self.open))
        put(xr, 'open_dataset', self.open_dataset)
        put(xr.Dataset, 'chunk', chunk)
        put(xr.Dataset, 'to_zarr', lambda ds, *a, **kw: world.to_zarr(ds, *a, **kw))
      else:  # a replay from within a symbolic run
        put(CR, 'fsspec', FSSPEC)
        put(xr, 'open_dataset', REAL[0])
        put(xr.Dataset, 'chunk', REAL[1])
        put(xr.Dataset, 'to_zarr', REAL[2])
      try:
        yield self
      finally:
        if self.root:
          shutil.rmtree(self.root)


H_ = lambda *x: np.array(x, 'timedelta64[h]').astype('timedelta64[ns]')


def result_file(h, tag, contents, regions=('global', 'europe_land'), leads=(6, 12), levels=(500, 850), extra=0):
  """contents: {'metric.variable': has levels}; returns dataset, {(m, v): cells}."""
  ds, vals = {}, {}
  co = {'region': list(regions), 'lead_time': H_(*leads)}
  for mv, lev in contents.items():
    dims = ('region', 'lead_time') + (('level',) if lev else ())
    shape = (len(regions), len(leads)) + ((len(levels),) if lev else ())
    x = h.floats(f'{tag} {mv}', shape, nan=True)
    ds[mv] = xr.DataArray(x, dims=dims, coords={**co, **({'level': list(levels)} if lev else {})})
    m, v = mv.split('.')
    for r, l, *k in np.ndindex(*shape):
      vals[m, v, regions[r], leads[l], levels[k[0]] if lev else None] = x[(r, l, *k)]
  ds = xr.Dataset(ds)
  if extra:
    ds = ds.assign_coords(lead_time_secs=('lead_time', np.arange(len(leads)) + extra))
  return ds, vals


SPECIAL = {'mean_sea_level_pressure': 'Sea Level Pressure', 'total_precipitation_6hr': '6h Precipitation',
           'total_precipitation_24hr': '24h Precipitation', 'wind': 'Wind Vector', '10m_wind': '10m Wind Vector'}
METRIC = {'rmse': 'RMSE', 'mse': 'MSE', 'mae': 'MAE', 'bias': 'Bias', 'seeps': 'SEEPS', 'acc': 'ACC',
          'prediction_activity': 'Forecast Activity', 'vector_rmse': 'RMSE', 'crps': 'CRPS',
          'spread_skill': 'Spread/Skill', 'unbiased_spread_skill': 'Unbiased Spread/Skill',
          'unbiased_mean_rmse': 'Unbiased Mean RMSE', 'mean_rmse': 'Mean RMSE'}


def pretty(v):
  """wind_speed -> Wind Speed."""
  return SPECIAL.get(v) or ' '.join(w if w == 'of' else w[:1].upper() + w[1:] for w in v.split('_')).replace('10M', '10m')


def region(r):
  land = r.endswith('_land')
  r = r.removesuffix('_land')
  name = 'Australia/New Zealand' if r == 'ausnz' else (
      'South-East Asia' if r == 'south-east-asia' else ' '.join(w.capitalize() for w in r.split('-')))
  return name + (' (Land)' if land else '')


def compare(h, table, files):
  """files: {(model name, year, resolution): values}; every cell of the table."""
  keys = {k for vals in files.values() for k in vals}
  dims = dict(
      model={m for m, _, _ in files}, year={y for _, y, _ in files}, resolution={r for _, _, r in files},
      metric={METRIC[k[0]] for k in keys}, region={region(k[2]) for k in keys}, level={k[4] for k in keys} - {None})
  for d, want in dims.items():
    if want:
      got = [x.item() if hasattr(x, 'item') else x for x in table[d].values]
      h.true(f'entries of {d}', len(got) == len(want) and set(got) == want, f'{got} {want}')
  h.true('coordinates', set(table.coords) <= set(dims) | {'lead_time', 'lead_time_h'}, str(set(table.coords)))
  leads = sorted({k[3] for k in keys})
  h.true('lead times', list(table.lead_time.values) == list(H_(*leads)), str(table.lead_time.values))
  h.true('lead hours', list(table.lead_time_h.values) == leads,
         str(table.lead_time_h.values))
  variables = {pretty(k[1]): k[1] for k in keys}
  h.true('variables', set(table.data_vars) == set(variables), f'{set(table.data_vars)} {set(variables)}')
  # Values by display names.
  want = {}
  for (m, y, r), vals in files.items():
    for (me, v, reg, lead, lev), x in vals.items():
      want[pretty(v), m, y, r, METRIC[me], region(reg), lead, lev] = x
  for v in variables:
    if v not in table:
      continue
    lev = sorted({k[7] for k in want if k[0] == v}, key=str)
    order = ['model', 'year', 'resolution', 'metric', 'region', 'lead_time'] + (['level'] if lev != [None] else [])
    t = table[v]
    h.true(f'dimensions of {v}', set(t.dims) == set(order), str(t.dims))
    t = t.transpose(*order)
    got = cells(t)
    lists = [list(t[d].values) for d in order[:5]] + [[int(x / np.timedelta64(1, 'h')) for x in t.lead_time.values]]
    lists += [[int(x) for x in t.level.values]] if len(order) == 7 else [[None]]
    exp = np.empty([len(x) for x in lists], object)
    for i in np.ndindex(*exp.shape):
      exp[i] = want.get((v, *[l[j] for l, j in zip(lists, i)]), None)
      exp[i] = NAN if exp[i] is None else lift_f(cells(exp[i]).ravel()[0])
    h.eq(f'values of {v}', wrapcells(got.reshape(exp.shape)), wrapcells(exp))


def run(h, mode, files):
  """files: [(model key, display, year, resolution, dataset kwargs)]."""
  w = World(h, mode)
  with w.on():
    vals = {}
    for i, (key, name, year, res, kw) in enumerate(files):
      ds, x = result_file(h, f'f{i}', **kw)
      w.add(f'{key}_{res}_{year}.nc', ds)
      vals[name, year, res] = x
    CR.main([])
    out = w.read()
    want = f'{mode}.zarr'
    h.true('output file', set(out) == {want}, str(set(out)))
    compare(h, out[want], vals)


BOTH = {'rmse.geopotential': True, 'bias.geopotential': True, 'rmse.2m_temperature': False}
UNEVEN = {'mse.geopotential': True, 'vector_rmse.wind': True, 'rmse.wind_speed': True, 'vector_rmse.10m_wind': False,
          'rmse.10m_wind_speed': False, 'seeps.total_precipitation_6hr': False}
ONLY = {'acc.temperature': True, 'prediction_activity.10m_u_component_of_wind': False,
        'acc.10m_u_component_of_wind': False, 'rmse.u_component_of_wind': True}
A, B_ = 'hres_vs_era5', 'keisler_vs_era5'
NA, NB = 'IFS HRES vs ERA5', 'Keisler (2022) vs ERA5'

SPEC.add('one file', lambda h: run(h, 'deterministic', [(A, NA, '2020', '64x32', dict(contents=BOTH))]))
SPEC.add('uneven metrics', lambda h: run(h, 'deterministic', [(A, NA, '2020', '64x32', dict(contents=UNEVEN))]), cost=2)
SPEC.add('similar names', lambda h: run(h, 'deterministic', [(B_, NB, '2022', '1440x721', dict(contents=ONLY, extra=7))]))
SPEC.add('two models', lambda h: run(h, 'deterministic', [
    (A, NA, '2020', '64x32', dict(contents=BOTH)), (B_, NB, '2020', '64x32', dict(contents=BOTH))]), cost=2)
SPEC.add('two years', lambda h: run(h, 'deterministic', [
    (A, NA, '2018', '64x32', dict(contents=BOTH)), (A, NA, '2022', '64x32', dict(contents=BOTH))]), cost=2)
SPEC.add('two resolutions', lambda h: run(h, 'deterministic', [
    (A, NA, '2018', '240x121', dict(contents=BOTH)), (A, NA, '2018', '64x32', dict(contents=BOTH))]), cost=2)
SPEC.add('different contents', lambda h: run(h, 'deterministic', [
    (A, NA, '2018', '240x121', dict(contents=BOTH)), (B_, NB, '2020', '64x32', dict(contents=UNEVEN, extra=3)),
    ('graphcast_vs_era5', 'GraphCast vs ERA5', '2020', '1440x721', dict(contents=ONLY))]), cost=4)
SPEC.add('different axes', lambda h: run(h, 'deterministic', [
    (A, NA, '2020', '64x32', dict(contents=BOTH, regions=('tropics', 'global'), leads=(12, 24), levels=(850, 700))),
    (B_, NB, '2020', '64x32', dict(contents=BOTH, regions=('global',), leads=(6, 18), levels=(500, 850), extra=9)),
    (B_, NB, '2022', '64x32', dict(contents=BOTH, regions=('ausnz', 'ausnz_land'), leads=(6,), levels=(850,), extra=5)),
]), cost=4)
PROB = {'crps.geopotential': True, 'unbiased_spread_skill.geopotential': True, 'mean_rmse.2m_temperature': False,
        'unbiased_mean_rmse.2m_temperature': False}
SPEC.add('probabilistic', lambda h: run(h, 'probabilistic', [
    ('ens_vs_era5', 'IFS ENS vs ERA5', '2018', '240x121', dict(contents=PROB)),
    ('ens_vs_hres_t0', 'IFS ENS vs Analysis', '2018', '240x121', dict(contents=PROB, regions=('global',))),
    ('gencast_vs_era5', 'GenCast vs ERA5', '2020', '240x121', dict(contents=PROB))]), cost=3)


def subsets(h):
  """Any subset of the files of two models may be missing."""
  small = {'rmse.geopotential': True, 'bias.2m_temperature': False}
  cand = [(A, NA, '2020', '64x32'), (A, NA, '2022', '240x121'), (B_, NB, '2020', '64x32'), (B_, NB, '2020', '240x121')]
  here = [h.is_true(h.bools(f'present {i}')) for i in range(4)]
  if not any(here):
    return
  run(h, 'deterministic', [(*c, dict(contents=small, regions=('global',), leads=(6,))) for c, p in zip(cand, here) if p])


SPEC.add('any subset of files', subsets, cost=4)


def every_model(h, mode):
  """Each model has its own name; nothing but its own file is read."""
  models = CR.DETERMINISTIC_MODELS if mode == 'deterministic' else CR.PROBABILISTIC_MODELS
  keys = sorted(models)
  i = h.pick_int('model', 0, len(keys) - 1)
  key = keys[i]
  h.true('name is its own', list(models.values()).count(models[key]) == 1, models[key])
  h.true('name says what it is', described(key, models[key]), f'{key}: {models[key]}')
  years, res = h.choice('year', [2018, 2020, 2022]), h.choice('resolution', ['64x32', '240x121', '1440x721'])
  one = {('rmse' if mode == 'deterministic' else 'crps') + '.geopotential': True}
  w = World(h, mode)
  with w.on(**{('DETERMINISTIC' if mode == 'deterministic' else 'PROBABILISTIC') + '_MODELS': {key: models[key]}}):
    ds, x = result_file(h, 'f', one, ('global',), (6,), (500,))
    w.add(f'{key}_{res}_{years}.nc', ds)
    other = keys[i - 1]
    w.add(f'{other}_{res}_{years}.nc', ds * 2)
    CR.main([])
    compare(h, w.read()[f'{mode}.zarr'], {(models[key], str(years), res): x})


FAMILY = [('hres', 'IFS HRES'), ('ens', 'IFS ENS'), ('era5_forecast', 'ERA5-Forecasts'), ('probabilistic_climatology', 'Probabilistic Climatology'),
          ('climatology', 'Climatology'), ('persistence', 'Persistence'), ('keisler', 'Keisler (2022)'), ('pangu', 'Pangu-Weather'),
          ('graphcast', 'GraphCast'), ('gencast', 'GenCast'), ('neuralgcm_hres', 'NeuralGCM 0.7'), ('neuralgcm_ens', 'NeuralGCM ENS'),
          ('fuxi', 'FuXi'), ('stormer', 'Stormer'), ('arches_weather_mx4', 'ArchesWeather-Mx4'), ('arches_weather_gen', 'ArchesWeatherGen'),
          ('swin', 'Swin'), ('excarta', 'Excarta'), ('aurora', 'Aurora'), ('baguan', 'Baguan'), ('weathermesh4', 'WeatherMesh4')]


def described(key, name):
  """The display name fits the file name (models not listed above: anything)."""
  pred, _, target = key.rpartition('_vs_')
  left, _, right = name.rpartition(' vs ')
  fam = next((f for p, f in FAMILY if pred.startswith(p)), '')
  return (right == {'era5': 'ERA5', 'hres_t0': 'Analysis'}.get(target, right) and left.startswith(fam)
          and (('_single_member' in pred) == ('(1st member)' in left))
          and not ('(mean)' in left and '_mean' not in pred)
          and (('hres_init' in pred or 'operational' in pred) <= ('(oper.)' in left)))


SPEC.add('every deterministic model', lambda h: every_model(h, 'deterministic'), cost=6)
SPEC.add('every probabilistic model', lambda h: every_model(h, 'probabilistic'), cost=4)


def every_name(h, mode):
  """Each variable, metric and region goes to its own display name."""
  mets = CR.DETERMINISTIC_METRIC_NAMES if mode == 'deterministic' else CR.PROBABILISTIC_METRIC_NAMES
  metric = h.choice('metric', sorted(mets))
  variable = h.choice('variable', sorted(CR.VARIABLE_NAMES) + ['new_variable'])
  w = World(h, mode)
  key, name = ('hres_vs_era5', 'IFS HRES vs ERA5') if mode == 'deterministic' else ('ens_vs_era5', 'IFS ENS vs ERA5')
  models = 'DETERMINISTIC_MODELS' if mode == 'deterministic' else 'PROBABILISTIC_MODELS'
  with w.on(**{models: {key: name}, 'YEARS': [2020], 'RESOLUTIONS': ['64x32']}):
    first = sorted(mets)[0]
    ds, x = result_file(h, 'f', {f'{metric}.{variable}': True, f'{first}.zzz': False, f'{metric}.aaa': False},
                        ('europe',), (6,), (500,))
    w.add(f'{key}_64x32_2020.nc', ds)
    CR.main([])
    known = {'new_variable': 'new_variable', 'zzz': 'zzz', 'aaa': 'aaa'}
    with mock.patch.dict(SPECIAL, known):
      compare(h, w.read()[f'{mode}.zarr'], {(name, '2020', '64x32'): x})


SPEC.add('every deterministic name', lambda h: every_name(h, 'deterministic'), cost=4)
SPEC.add('every probabilistic name', lambda h: every_name(h, 'probabilistic'), cost=3)


def every_region(h):
  regs = sorted(CR.REGION_NAMES)
  i = h.pick_int('region', 0, len(regs) - 1)
  order = h.choice('order', [0, 1])
  two = [regs[i], regs[i] + '_land', regs[i - 1]]
  two = tuple(two[::-1] if order else two)
  w = World(h, 'deterministic')
  with w.on(DETERMINISTIC_MODELS={A: NA}, YEARS=[2020], RESOLUTIONS=['64x32']):
    ds, x = result_file(h, 'f', {'rmse.geopotential': True}, two, (6,), (850,))
    w.add(f'{A}_64x32_2020.nc', ds)
    CR.main([])
    compare(h, w.read()['deterministic.zarr'], {(NA, '2020', '64x32'): x})


SPEC.add('every region', every_region, cost=2)
