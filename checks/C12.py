"""C12: input transforms binarise, bin and select exactly as declared."""
from checks.common import *
import datetime
from weatherbenchX import aggregation
from weatherbenchX.metrics import base, categorical as C, deterministic as D, wrappers as W

SPEC = Spec(
    'C12',
    functions=['metrics.wrappers.binarize_thresholds', 'metrics.wrappers.compute_cdf',
               'metrics.wrappers.select_bin_thresholds_by_time_from_chunk',
               'metrics.wrappers.ContinuousToBinary/ContinuousToBins/ContinuousToCDF/'
               'EnsembleMean/WeibullEnsembleToProbabilistic/Inline/ReLU/ShiftAlongNewDim/'
               'Rename/Select/StackToNewDimension.transform_fn',
               'metrics.wrappers.WrappedStatistic/WrappedMetric/RenamedStatistic/'
               'SubselectVariables', 'metrics.base.PerVariableStatistic.compute'],
    bounds='2-4 values per input, each any real or NaN; up to 4 thresholds/edges '
           '(any reals, any order for binarisation; increasing for bins) per cell; '
           'symbolic query times over 4 threshold entries; 3 ensemble members; '
           'transform lists of length up to 3',
    assumptions=['binarisation thresholds are not NaN'])

def da(v, dims=('x', 'y'), name='u', **co):
  return xr.DataArray(v, dims=dims, coords=co or {d: np.arange(n) for d, n in zip(dims, v.shape)}, name=name)


@SPEC.harness('binarisation')
def h_binary(h):
  form = h.choice('form', ['scalar', 'list', 'tuple', 'DataArray', 'Dataset', 'function'])
  n = 1 if form == 'scalar' else 3
  v = extended(h, 'v', (2, 2))
  x = da(v)
  a = cells(v)
  if form in ('DataArray', 'Dataset'):
    t = h.floats('t', (n, 2))
    th = xr.DataArray(t, dims=('q', 'y'), coords={'q': [5, 6, 7], 'y': [0, 1]})
    tc = cells(t)
    get = lambda k, j: tc[k, j]
    if form == 'Dataset':
      th = xr.Dataset({'other': th * 0 - 1, 'u': th})
    tr = W.ContinuousToBinary('both', th, 'q', unique_name_suffix='s')
    lab = [5, 6, 7]
  elif form == 'scalar':
    tr = W.ContinuousToBinary('both', 1.5, 'q')
    lab, get = [1.5], lambda k, j: lift_f(1.5)
  else:
    lab = [2.0, -1.0, 0.0]        # any order
    get = lambda k, j: lift_f(lab[k])
    tr = W.ContinuousToBinary('both', tuple(lab) if form == 'tuple' else lab, 'q')
  if form == 'function':
    r = W.binarize_thresholds(x, lab, 'q')
  else:
    r = tr.transform_fn(x)
  r = r.transpose('x', 'y', 'q')
  h.eq('binary', r, wrapcells(objarr((2, 2, n), lambda i, j, k: f_ite(
      a[i, j].nan, NAN, fb(f_lt(get(k, j), a[i, j]))))))
  h.true('labels', list(r['q'].values) == lab)
  h.true('coords', list(r['y'].values) == [0, 1] and r.name in ('u', None))


def inc(h, name, shape):
  """increasing along axis 0"""
  t = h.floats(name, shape)
  for k in range(shape[0] - 1):
    h.assume(t[k + 1] > t[k])
  return t


@SPEC.harness('bins and cumulative bins')
def h_bins(h):
  form = h.choice('form', ['list', 'fine', 'open', 'DataArray', 'Dataset'])
  v = extended(h, 'v', (2, 2))
  x = da(v)
  a = cells(v)
  if form in ('list', 'fine', 'open'):
    lab = {'list': [-1.0, 0.0, 0.5, 2.0], 'fine': [0.0, 0.0001, 0.001, 0.002],
           'open': [-np.inf, 0.0, 0.5, np.inf]}[form]
    th, sfx = lab, None
    get = lambda k, j: lift_f(lab[k])
  else:
    t = inc(h, 't', (4, 2))
    lab = [0., 1., 2., 3.]
    th = xr.DataArray(t, dims=('q', 'y'), coords={'q': lab, 'y': [0, 1]})
    tc = cells(t)
    get = lambda k, j: tc[k, j]
    if form == 'Dataset':
      th = xr.Dataset({'other': th - 1, 'u': th})
    sfx = 's'
  le = lambda x, e: f_le(x, e)
  r = W.ContinuousToBins('both', th, 'q', unique_name_suffix=sfx).transform_fn(x)
  want = lambda i, j, k: f_ite(a[i, j].nan, NAN, fb(b_and(
      f_lt(get(k, j), a[i, j]), f_le(a[i, j], get(k + 1, j)))))
  h.eq('bins', r.transpose('x', 'y', 'q'), wrapcells(objarr((2, 2, 3), want)))
  h.true('left', list(r['q_left'].values) == lab[:-1] and r['q_left'].dims == ('q',))
  h.true('right', list(r['q_right'].values) == lab[1:])
  if form != 'fine':
    h.true('names', list(r['q'].values) == [f'{l:.2f} < p <= {u:.2f}' for l, u in zip(lab, lab[1:])])
  h.true('distinct names', len(set(r['q'].values)) == 3)
  if form == 'open':   # exactly one bin over the whole line
    h.eq('one bin', r.sum('q', skipna=False).transpose('x', 'y'), wrapcells(objarr((2, 2), lambda i, j: f_ite(
        a[i, j].nan, NAN, fb(f_lt(core.NINF, a[i, j]))))))
  for ri in (True, False):
    c = W.ContinuousToCDF('both', th, 'q', unique_name_suffix=sfx, right_inclusive=ri).transform_fn(x)
    op = f_le if ri else f_lt
    h.eq(f'cdf right_inclusive={ri}', c.transpose('x', 'y', 'q'), wrapcells(objarr(
        (2, 2, 4), lambda i, j, k: f_ite(a[i, j].nan, NAN, fb(op(a[i, j], get(k, j)))))))
    h.true('cdf labels', list(c['q'].values) == lab)
    cc = cells(c.transpose('x', 'y', 'q').data)
    h.true('monotone', b_and(*[b_or(a[i, j].nan, f_le(cc[i, j, k], cc[i, j, k + 1]))
                               for i in range(2) for j in range(2) for k in range(3)]))
  c = W.ContinuousToCDF('both', th, 'q', unique_name_suffix=sfx).transform_fn(x)
  h.eq('cdf default is right inclusive', c, W.ContinuousToCDF(
      'both', th, 'q', unique_name_suffix=sfx, right_inclusive=True).transform_fn(x))


@SPEC.harness('edges must increase')
def h_mono(h):
  """Rejected exactly when some edges do not increase; NaN edges on request."""
  v = h.floats('v', (2,), nan=True)
  t = h.floats('t', (3, 2))
  x = da(v, ('x',))
  th = xr.DataArray(t, dims=('q', 'x'), coords={'q': [0, 1, 2], 'x': [0, 1]})
  tc, a = cells(t), cells(v)
  ok = b_and(*[f_lt(tc[k, i], tc[k + 1, i]) for k in range(2) for i in range(2)])
  for cls in (W.ContinuousToBins, W.ContinuousToCDF):
    try:
      cls('both', th, 'q', unique_name_suffix='s').transform_fn(x)
      raised = False
    except ValueError:
      raised = True
    h.true(f'{cls.__name__} raises iff not increasing', b_not(ok) if raised else ok)
  tn = h.bools('tn', (3, 2))
  n = cells(tn)
  th2 = th.where(~xr.DataArray(tn, dims=('q', 'x'), coords=th.coords))
  c = W.ContinuousToCDF('both', th2, 'q', unique_name_suffix='s', enforce_monotonicity=False).transform_fn(x)
  h.eq('NaN edges stay NaN', c.transpose('q', 'x'), wrapcells(objarr((3, 2), lambda k, i: f_ite(
      b_or(n[k, i], a[i].nan), NAN, fb(f_le(a[i], tc[k, i]))))))


def timed(h, form):
  """Thresholds chosen by the time of the chunk."""
  edges = 3
  base_s = (datetime.date(2020, 2, 28) - datetime.date(1970, 1, 1)).days * 86400
  days = np.array(['2020-02-28', '2020-02-29', '2020-03-01', '2020-03-02'], 'M8[ns]')
  if form.startswith('init/lead'):
    nl = 2
    s = h.ints('slot', (1,), lo=0, hi=2)
    init = (s * 86400 + base_s).astype('M8[s]').astype('M8[ns]')
    lead = np.array([0, 24], 'm8[h]').astype('m8[ns]')
    v = h.floats('v', (1, nl), nan=True)
    x = xr.DataArray(v, dims=('init_time', 'lead_time'), coords=dict(init_time=init, lead_time=lead), name='u')
    shape = (1, nl)
    if form == 'init/lead: valid_time':
      t = inc(h, 't', (edges, 4)); dims, co = ('valid_time',), dict(valid_time=days)
      idx = lambda s_, l: [(k,) for k in range(4)], lambda k, l: core.i_eq(core.i_add(s_, l), k)
      want = lambda tc, e, l: _pick([(core.i_eq(core.i_add(s0, l), k), tc[e, k]) for k in range(4)])
    elif form == 'init/lead: init/lead':
      t = inc(h, 't', (edges, 3, nl)); dims, co = ('init_time', 'lead_time'), dict(init_time=days[:3], lead_time=lead)
      want = lambda tc, e, l: _pick([(core.i_eq(s0, k), tc[e, k, l]) for k in range(3)])
    elif form == 'init/lead: dayofyear/lead':
      t = inc(h, 't', (edges, 3, nl)); dims, co = ('dayofyear', 'lead_time'), dict(dayofyear=[59, 60, 61], lead_time=lead)
      want = lambda tc, e, l: _pick([(core.i_eq(s0, k), tc[e, k, l]) for k in range(3)])
    else:
      t = inc(h, 't', (edges, 2)); dims, co = ('lead_time',), dict(lead_time=lead)
      want = lambda tc, e, l: tc[e, l]
    order = ('init_time', 'lead_time')
  else:
    s = h.ints('slot', (1,), lo=0, hi=3)
    vt = (s * 86400 + base_s).astype('M8[s]').astype('M8[ns]')
    v = h.floats('v', (1, 2), nan=True)
    shape = (1, 2)
    x = xr.DataArray(v, dims=('valid_time', 'y'), coords=dict(valid_time=vt, y=[0, 1]), name='u')
    if form == 'valid: valid_time':
      t = inc(h, 't', (edges, 4, 2)); dims, co = ('valid_time', 'y'), dict(valid_time=days, y=[0, 1])
      want = lambda tc, e, l: _pick([(core.i_eq(s0, k), tc[e, k, l]) for k in range(4)])
    elif form == 'valid: dayofyear':
      t = inc(h, 't', (edges, 4, 2)); dims, co = ('dayofyear', 'y'), dict(dayofyear=[59, 60, 61, 62], y=[0, 1])
      want = lambda tc, e, l: _pick([(core.i_eq(s0, k), tc[e, k, l]) for k in range(4)])
    else:
      t = inc(h, 't', (edges, 2)); dims, co = ('y',), dict(y=[0, 1])
      want = lambda tc, e, l: tc[e, l]
    order = ('valid_time', 'y')
  s0 = cells(s)[0].v
  th = xr.DataArray(t, dims=('q',) + dims, coords={'q': [0, 1, 2], **co}, name='u')
  if h.choice('dataset', [False, True]):
    th = xr.Dataset({'z': th - 100, 'u': th})
  tc, a = cells(t), cells(v)
  r = W.ContinuousToBins('both', th, 'q', unique_name_suffix='s').transform_fn(x).transpose(*order, 'q')
  c = W.ContinuousToCDF('both', th, 'q', unique_name_suffix='s').transform_fn(x).transpose(*order, 'q')
  h.eq('bins', r, wrapcells(objarr(shape + (2,), lambda i, l, e: f_ite(a[i, l].nan, NAN, fb(b_and(
      f_lt(want(tc, e, l), a[i, l]), f_le(a[i, l], want(tc, e + 1, l))))))))
  h.eq('cdf', c, wrapcells(objarr(shape + (3,), lambda i, l, e: f_ite(a[i, l].nan, NAN, fb(
      f_le(a[i, l], want(tc, e, l)))))))


def _pick(alts):
  r = None
  for c, v in alts:
    r = v if r is None else f_ite(c, v, r)
  return r


for f in ('init/lead: valid_time', 'init/lead: init/lead', 'init/lead: dayofyear/lead', 'init/lead: other',
          'valid: valid_time', 'valid: dayofyear', 'valid: other'):
  SPEC.add(f'thresholds by time[{f}]', (lambda f: lambda h: timed(h, f))(f))


@SPEC.harness('ensemble mean and plotting position')
def h_ens(h):
  m = 3
  dim = h.choice('dim', ['number', 'realization'])
  v = h.floats('v', (2, m), nan=True)
  x = da(v, ('x', dim))
  a = cells(v)
  s = lambda i, skip: fsum(f_ite(c.nan, ZERO, c) if skip else c for c in a[i])
  cnt = lambda i: fsum(fb(b_not(c.nan)) for c in a[i])
  kw = {} if dim == 'number' else dict(ensemble_dim=dim)
  h.eq('mean', W.EnsembleMean('predictions', **kw).transform_fn(x),
       wrapcells(objarr((2,), lambda i: f_div(s(i, False), lift_f(m)))))
  h.eq('mean skipna', W.EnsembleMean('predictions', skipna=True, **kw).transform_fn(x),
       wrapcells(objarr((2,), lambda i: f_div(s(i, True), cnt(i)))))
  y = da(v, ('x', 'other'))
  h.eq('no ensemble: unchanged on request', W.EnsembleMean(
      'both', skip_if_ensemble_dim_missing=True, **kw).transform_fn(y), y)
  h.eq('mean even so', W.EnsembleMean('both', skip_if_ensemble_dim_missing=True, **kw).transform_fn(x),
       wrapcells(objarr((2,), lambda i: f_div(s(i, False), lift_f(m)))))
  with h.raises('no ensemble otherwise', ValueError):
    W.EnsembleMean('both', **kw).transform_fn(y)
  b = da(h.bools('b', (2, m)).astype(float), ('x', dim))
  bn = h.bools('bn', (2, m))
  b = b.where(~da(bn, ('x', dim)))
  bc = cells(b.data)
  h.eq('plotting position', W.WeibullEnsembleToProbabilistic('predictions', **kw).transform_fn(b),
       wrapcells(objarr((2,), lambda i: f_div(fsum(bc[i]), lift_f(m + 1)))))
  with h.raises('predictions only', AssertionError):
    W.WeibullEnsembleToProbabilistic('both')


@SPEC.harness('pointwise transforms and selections')
def h_point(h):
  v = extended(h, 'v', (2, 3))
  x = da(v, x=[10, 20], y=[1., 2., 4.])
  a = cells(v)
  same = lambda f: wrapcells(objarr((2, 3), lambda i, j: f(a[i, j])))
  h.eq('relu', W.ReLU('both').transform_fn(x), same(lambda c: f_max(c, ZERO)))
  h.eq('inline', W.Inline('both', lambda d: -d * 2, 'n').transform_fn(x), same(lambda c: f_mul(c, lift_f(-2))))
  sh = [1.5, -2.0]
  for w, n in (([1.5, -2.0], 2), (3.0, 1), ((1.5, -2.0), 2)):
    r = W.ShiftAlongNewDim('both', w, 't', 's').transform_fn(x).transpose('x', 'y', 't')
    ws = list(w) if n == 2 else [w]
    h.eq(f'shift {w}', r, wrapcells(objarr((2, 3, n), lambda i, j, k: f_add(a[i, j], lift_f(ws[k])))))
    h.true('shift labels', list(r['t'].values) == ws)
  d = h.floats('d', (2, 3))
  dc = cells(d)
  ds = xr.Dataset({'u': (('t', 'y'), d), 'w': (('t', 'y'), d + 7)}, coords={'t': [0, 1], 'y': [1., 2., 4.]})
  r = W.ShiftAlongNewDim('both', ds, 't', 's').transform_fn(x).transpose('x', 'y', 't')
  h.eq('shift by dataset', r, wrapcells(objarr((2, 3, 2), lambda i, j, k: f_add(a[i, j], dc[k, j]))))
  with h.raises('shift dim missing', RuntimeError):
    W.ShiftAlongNewDim('both', ds, 'q', 's').transform_fn(x)
  r = W.Rename('both', {'y': 'z'}).transform_fn(x)
  h.true('rename dims', r.dims == ('x', 'z') and list(r['z'].values) == [1., 2., 4.])
  h.eq('rename', r.data, same(lambda c: c))
  r = W.Select('both', sel={'y': [4., 2.]}, isel={'x': 1}).transform_fn(x)
  h.eq('select', r.data, wrapcells(objarr((2,), lambda j: a[1, [2, 1][j]])))
  r = W.Select('both', sel={'y': 3.2}, sel_kwargs={'method': 'nearest'}).transform_fn(x)
  h.eq('select nearest', r.data, wrapcells(a[:, 2]))
  r = W.Select('both', isel={'y': slice(1, None)}).transform_fn(x)
  h.eq('isel', r.data, wrapcells(a[:, 1:]))
  r = W.Select('both', sel={'y': slice(1.5, 3)}).transform_fn(x)
  h.eq('sel slice', r.data, wrapcells(a[:, 1:2]))
  r = W.Select('both', isel={'y': [0], 'q': 0}, isel_kwargs={'missing_dims': 'ignore'}).transform_fn(x)
  h.eq('isel kwargs', r.data, wrapcells(a[:, :1]))
  r = W.Select('both', sel={'y': 2.}, isel={'x': 0}, sel_kwargs={'drop': True}).transform_fn(x)
  h.eq('sel then isel', r.data, wrapcells(np.asarray(a[0, 1], dtype=object)))
  h.eq('input untouched', x.data, wrapcells(a))
  r = W.StackToNewDimension('both', ['x', 'y'], 'y').transform_fn(x)
  h.true('stack dims', r.dims == ('y',) and 'x' not in r.coords)
  h.eq('stack', r.data, wrapcells(objarr((6,), lambda k: a[k // 3, k % 3])))
  r = W.StackToNewDimension('both', ['y', 'x'], 'n').transform_fn(x)
  h.eq('stack order', r.data, wrapcells(objarr((6,), lambda k: a[k % 2, k // 2])))


class Rec(base.Statistic):
  """Returns both inputs, to observe what a wrapped statistic receives."""
  unique_name = 'rec'
  def compute(self, predictions, targets):
    return {f'{w}:{k}': v for w, d in (('p', predictions), ('t', targets)) for k, v in d.items()}


class RecM(base.Metric):
  statistics = {'r': Rec()}
  def values_from_mean_statistics(self, statistic_values):
    return statistic_values['r']


@SPEC.harness('order of transforms and which inputs')
def h_order(h):
  which = [h.choice(f'which{k}', ['predictions', 'targets', 'both']) for k in range(2)]
  suffix = h.choice('suffix', [None, 'short'])
  v = {k: h.floats(k, (2,), nan=True) for k in ('pu', 'pw', 'tu', 'tw')}
  mk = lambda p: {'u': da(v[p + 'u'], ('x',)), 'w': da(v[p + 'w'], ('x',), name='w')}
  P, T = mk('p'), mk('t')
  f = W.Inline(which[0], lambda d: d * 3, 'f')
  g = W.Inline(which[1], lambda d: d + 1, 'g')
  k = W.ContinuousToBinary('both', [0.5], 'q')
  m = W.WrappedMetric(RecM(), [f, g, k], unique_name_suffix=suffix)
  st = m.statistics
  h.true('statistic names', set(st) == {'r'})
  out = st['r'].compute(P, T)
  h.true('keys', set(out) == {'p:u', 'p:w', 't:u', 't:w'})
  on = lambda w, s: w == 'both' or w == {'p': 'predictions', 't': 'targets'}[s]
  for s in 'pt':
    for n in 'uw':
      c = cells(v[s + n])
      def want(i, _):
        x = c[i]
        if on(which[0], s): x = f_mul(x, lift_f(3))
        if on(which[1], s): x = f_add(x, ONE)
        return f_ite(c[i].nan, NAN, fb(f_lt(lift_f(0.5), x)))
      h.eq(f'{s}:{n}', out[f'{s}:{n}'], wrapcells(objarr((2, 1), want)))
  h.true('suffix', st['r'].unique_name == 'rec_short' if suffix else st['r'].unique_name.startswith('rec_'))
  with h.raises('which', ValueError):
    W.ReLU('prediction')


@SPEC.harness('wrapped metric equals the metric of the transformed data')
def h_wrap(h):
  kind = h.choice('metric', ['CSI', 'RMSE', 'MAE'])
  p, t = h.floats('p', (2, 2), nan=True), h.floats('t', (2,), nan=True)
  P = {'u': da(p, ('x', 'number'))}
  T = {'u': da(t, ('x',))}
  agg = aggregation.Aggregator(reduce_dims=['x'])
  run = lambda m, P, T: aggregation.compute_metric_values_for_single_chunk({'m': m}, agg, P, T)['m.u']
  if kind == 'CSI':
    tr = [W.ContinuousToBinary('both', [0.5, 1.5], 'q'), W.EnsembleMean('predictions'),
          W.ContinuousToBinary('predictions', [0.25, 0.75], 'pr')]
    m = C.CSI()
  else:
    tr = [W.EnsembleMean('predictions'), W.ReLU('both')]
    m = D.RMSE() if kind == 'RMSE' else D.MAE()
  for f in (tr if kind == 'CSI' else [None]):
    pass
  tp, tt = P['u'], T['u']
  for f in tr:
    if f.which in ('predictions', 'both'): tp = f.transform_fn(tp)
    if f.which in ('targets', 'both'): tt = f.transform_fn(tt)
  got, want = run(W.WrappedMetric(m, tr), P, T), run(m, {'u': tp}, {'u': tt})
  h.true('dims', set(got.dims) == set(want.dims) == ({'q', 'pr'} if kind == 'CSI' else set()))
  h.eq('metric', got, want.transpose(*got.dims))


@SPEC.harness('only selected variables are used')
def h_sub(h):
  sel = h.choice('variables', [['u'], ['w', 'u'], ['z', 'w']])
  v = h.floats('v', (6, 2), nan=True)
  P = {k: da(v[i], ('x',), name=k) for i, k in enumerate(['u', 'w', 'z'])}
  T = {k: da(v[3 + i], ('x',), name=k) for i, k in enumerate(['u', 'w', 'z'])}
  m = W.SubselectVariables(D.MSE(), sel)
  r = aggregation.compute_metric_values_for_single_chunk({'m': m}, aggregation.Aggregator(reduce_dims=['x']), P, T)
  h.true('variables', set(r.data_vars) == {f'm.{k}' for k in sel})
  a = cells(v)
  for k in sel:
    i = 'uwz'.index(k)
    h.eq(k, r[f'm.{k}'], wrapcells(np.asarray(f_div(fsum(f_mul(f_sub(x, y), f_sub(x, y)) for x, y in zip(a[i], a[3 + i])), lift_f(2)), dtype=object)))
  out = W.SubselectVariables(RecM(), sel).statistics['r'].compute(P, T)
  h.true('received', set(out) == {f'{s}:{k}' for s in 'pt' for k in sel})
