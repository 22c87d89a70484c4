"""C01: aggregated statistics are weighted means over exactly the selected cells."""
from checks.common import *
from weatherbenchX import aggregation, binning, weighting

SPEC = Spec(
    'C01',
    functions=['aggregation.Aggregator.aggregate_statistics',
               'aggregation.Aggregator.aggregate_stat_vars',
               'aggregation.Aggregator.aggregate_stat_var',
               'aggregation.Aggregator.aggregation_fn',
               'aggregation.AggregationState.mean_statistics',
               'weatherbenchX.xarray_tree.map_structure'],
    bounds='statistic of 2x2 and 2x3 cells; 0..2 weightings; 0..2 binnings of '
           '2 bins; every mask / bin / NaN pattern; every reduce_dims subset',
    assumptions=['weightings and binnings passed in are arbitrary symbolic '
                 'arrays over one statistic dimension (or all of them)',
                 'a NaN cell multiplied by an exactly zero weight/bin '
                 'coefficient (BLAS gives 0 or NaN) leaves that cell unspecified'],
    stubs=['Weighting and Binning subclasses returning symbolic arrays'])


class W(weighting.Weighting):
  def __init__(self, da): self.da = da
  def weights(self, statistic): return self.da


class Bn(binning.Binning):
  def __init__(self, name, da):
    super().__init__(name)
    self.da = da
  def create_bin_mask(self, statistic): return self.da


def run(h, *, shape, reduce, masked, skipna, nw, nb, mask_dims=('x', 'y'),
        has_mask=True, wlo=None, nan=True):
  nx, ny = shape
  # (infinities without coefficients only, as inf * 0 is NaN)
  v = h.floats('v', shape, nan=nan) if nw or nb or not nan else extended(h, 'v', shape)
  dims = ('x', 'y')
  coords = {}
  m = None
  if has_mask:
    msh = tuple(dict(x=nx, y=ny)[d] for d in mask_dims)
    m = h.bools('m', msh)
    coords['mask'] = (mask_dims, m)
  da = xr.DataArray(v, dims=dims, coords=coords, attrs={'units': 'K'})
  ws, bs = [], []
  wcell = []
  for i in range(nw):
    d = dims[i % 2]
    w = h.floats(f'w{i}', (shape[i % 2],), lo=wlo)
    ws.append(W(xr.DataArray(w, dims=(d,))))
    wc = cells(w)
    wcell.append((lambda wc, k: lambda x, y: wc[(x, y)[k]])(wc, i % 2))
  bcell = []
  for i in range(nb):
    if i == 0:
      b = h.bools(f'b{i}', (2, nx))
      bs.append(Bn('bin0', xr.DataArray(b, dims=('bin0', 'x'))))
      bc = cells(b)
      bcell.append((lambda bc: lambda j, x, y: bc[j, x])(bc))
    else:
      b = h.bools(f'b{i}', (2, nx, ny))
      bs.append(Bn('bin1', xr.DataArray(b, dims=('bin1', 'x', 'y'))))
      bc = cells(b)
      bcell.append((lambda bc: lambda j, x, y: bc[j, x, y])(bc))
  agg = aggregation.Aggregator(reduce_dims=list(reduce), bin_by=bs or None,
                               weigh_by=ws or None, masked=masked,
                               skipna=skipna)
  state = agg.aggregate_statistics({'S': {'q': da}})
  sws, sw = state.sum_weighted_statistics['S']['q'], state.sum_weights['S']['q']
  kept = [d for d in dims if d not in reduce]
  outd = kept + [f'bin{i}' for i in range(nb)]
  h.true('dims', set(sws.dims) == set(outd) and set(sw.dims) == set(outd),
         f'{sws.dims} {sw.dims}')
  sws, sw = sws.transpose(*outd), sw.transpose(*outd)
  vc, mc = cells(v), (cells(m) if has_mask else None)
  rng = dict(x=range(nx), y=range(ny))
  osh = tuple(dict(x=nx, y=ny)[d] for d in kept) + (2,) * nb
  e_s, e_w = np.empty(osh, object), np.empty(osh, object)
  unspec = np.empty(osh, object)
  for o in np.ndindex(*osh):
    fix = dict(zip(kept, o))
    bj = o[len(kept):]
    s = w = ZERO
    poisoned = undefined = False
    for x in ([fix['x']] if 'x' in fix else rng['x']):
      for y in ([fix['y']] if 'y' in fix else rng['y']):
        val = vc[x, y]
        use = True
        if masked and has_mask:
          pos = dict(x=x, y=y)
          use = mc[tuple(pos[d] for d in mask_dims)]
        if skipna:
          use = b_and(use, b_not(val.nan))
        k = ONE
        for wf in wcell:
          k = f_mul(k, wf(x, y))
        for j, bf in zip(bj, bcell):
          k = f_mul(k, fb(bf(j, x, y)))
        bad = b_and(use, val.nan)
        zero = f_eq(k, ZERO)
        poisoned = b_or(poisoned, b_and(bad, b_not(zero)))
        undefined = b_or(undefined, b_and(bad, zero))
        # masked cells contribute nothing, whatever their value
        s = f_add(s, f_mul(f_ite(use, val, ZERO), k))
        w = f_add(w, f_mul(f_ite(use, ONE, ZERO), k))
    e_s[o], e_w[o] = s, w
    # NaN * 0 inside a BLAS product is NaN or 0 depending on sizes
    unspec[o] = b_and(undefined, b_not(poisoned))
  h.eq('sum_weighted', sws, wrapcells(e_s), unless=unspec)
  h.eq('sum_weights', sw, wrapcells(e_w))
  mean = state.mean_statistics()['S']['q'].transpose(*outd)
  e_m = np.empty(osh, object)
  cs, cw = cells(sws), cells(sw)
  for o in np.ndindex(*osh):
    e_m[o] = f_div(cs[o], cw[o])
  h.eq('mean', mean, wrapcells(e_m), unless=unspec)


CASES = []
for masked, skipna in itertools.product([False, True], repeat=2):
  for reduce in (['x', 'y'], ['x'], ['y'], []):
    CASES.append(dict(shape=(2, 2), reduce=reduce, masked=masked, skipna=skipna,
                      nw=0, nb=0))
  CASES.append(dict(shape=(2, 2), reduce=['x', 'y'], masked=masked,
                    skipna=skipna, nw=1, nb=1, wlo=0))
  CASES.append(dict(shape=(2, 2), reduce=['x', 'y'], masked=masked,
                    skipna=skipna, nw=2, nb=0, wlo=0))
  CASES.append(dict(shape=(2, 2), reduce=['y'], masked=masked, skipna=skipna,
                    nw=0, nb=2))
  CASES.append(dict(shape=(2, 3), reduce=['x', 'y'], masked=masked,
                    skipna=skipna, nw=1, nb=1))
for d in (('x',), ('y',), ('y', 'x')):
  for skipna in (False, True):
    CASES.append(dict(shape=(2, 2), reduce=['x', 'y'], masked=True,
                      skipna=skipna, nw=1, nb=0, mask_dims=d))
    CASES.append(dict(shape=(2, 2), reduce=['x'], masked=True, skipna=skipna,
                      nw=1, nb=1, mask_dims=d))
CASES.append(dict(shape=(2, 2), reduce=['x', 'y'], masked=True, skipna=False,
                  nw=1, nb=1, has_mask=False))
if THOROUGH:
  for masked, skipna in itertools.product([False, True], repeat=2):
    CASES.append(dict(shape=(3, 3), reduce=['x', 'y'], masked=masked,
                      skipna=skipna, nw=1, nb=1))
    CASES.append(dict(shape=(3, 4), reduce=['x', 'y'], masked=masked,
                      skipna=skipna, nw=0, nb=2))
    CASES.append(dict(shape=(3, 3), reduce=['y'], masked=masked,
                      skipna=skipna, nw=2, nb=1))


def _name(k):
  return 'agg[' + ','.join(f'{a}={b}' for a, b in k.items()) + ']'


for _k in CASES:
  SPEC.add(_name(_k), (lambda k: lambda h: run(h, **k))(_k))


class WS(weighting.Weighting):
  """A weighting that depends on what the statistic looks like."""
  def __init__(self, w): self.w = w
  def weights(self, statistic):
    if 'x' in statistic.dims:
      return xr.DataArray(self.w, dims=('x',))
    return xr.DataArray(1.)


def _cellsum(vals, weights):
  return fsum([f_mul(lift_f(a), lift_f(b)) for a, b in zip(vals, weights)])


@SPEC.harness('variables and statistics are independent')
def variables(h):
  masked = h.choice('masked', [False, True])
  skipna = h.choice('skipna', [False, True])
  binned = h.choice('binned', [False, True])
  reduce = h.choice('reduce', [['x'], ['x', 'y'], ['y'], ['z']])
  sizes = dict(x=2, y=2, z=1)
  spec = {('S', 'a'): 'xy', ('S', 'b'): 'yx', ('T', 'a'): 'xy', ('S', 'c'): 'y',
          ('T', 'd'): 'xz', ('T', 'e'): 'x', ('S', 'f'): 'zyx'}
  if binned and not skipna:
    # NaN * zero coefficient is unspecified, see the assumptions
    kw = dict(nan=False)
  else:
    kw = dict(nan=True)
  data, masks, st = {}, {}, {'S': {}, 'T': {}}
  for (s, q), dims in spec.items():
    sh = tuple(sizes[d] for d in dims)
    v = h.floats(f'{s}{q}', sh, **kw)
    co = {}
    data[s, q] = cells(v)
    if q != 'a' or s == 'S':
      m = h.bools(f'm{s}{q}', sh)
      co['mask'] = (tuple(dims), m)
      masks[s, q] = cells(m)
    st[s][q] = xr.DataArray(v, dims=tuple(dims), coords=co, attrs={'u': q})
  st['S']['none'] = None
  w = h.floats('w', (2,), lo=Fraction(1, 8))
  b = h.bools('b', (2, 2))
  wc, bc = cells(w), cells(b)
  agg = aggregation.Aggregator(
      reduce_dims=reduce, weigh_by=[WS(w)],
      bin_by=[Bn('k', xr.DataArray(b, dims=('k', 'y')))] if binned else None,
      masked=masked, skipna=skipna)
  out = agg.aggregate_statistics(st)
  for s in ('S', 'T'):
    want = {q for (s2, q), dims in spec.items() if s2 == s
            and set(reduce) <= set(dims) and (not binned or 'y' in dims)}
    h.true(f'{s}: variables kept', set(out.sum_weighted_statistics[s]) == want
           and set(out.sum_weights[s]) == want,
           f'{sorted(out.sum_weighted_statistics[s])} instead of {sorted(want)}')
    for q in sorted(want & set(out.sum_weights[s])):
      dims = spec[s, q]
      kept = [d for d in dims if d not in reduce] + (['k'] if binned else [])
      g = out.sum_weighted_statistics[s][q].transpose(*kept)
      gw = out.sum_weights[s][q].transpose(*kept)
      h.true(f'{s}.{q} attrs', g.attrs == {'u': q})
      osh = tuple(2 if d == 'k' else sizes[d] for d in kept)
      es, ew = np.empty(osh, object), np.empty(osh, object)
      for o in np.ndindex(*osh):
        fix = dict(zip(kept, o))
        a = t = ZERO
        for pos in np.ndindex(*[sizes[d] for d in dims]):
          p = dict(zip(dims, pos))
          if any(p[d] != fix[d] for d in p if d in fix):
            continue
          val = data[s, q][pos]
          use = True
          if masked and (s, q) in masks:
            use = masks[s, q][pos]
          if skipna:
            use = b_and(use, b_not(val.nan))
          k = wc[p['x']] if 'x' in p else ONE
          if binned:
            k = f_mul(k, fb(bc[fix['k'], p['y']]))
          a = f_add(a, f_mul(f_ite(use, val, ZERO), k))
          t = f_add(t, f_mul(f_ite(use, ONE, ZERO), k))
        es[o], ew[o] = a, t
      h.eq(f'{s}.{q} sum', g, wrapcells(es))
      h.eq(f'{s}.{q} weight', gw, wrapcells(ew))


@SPEC.harness('bin names must differ')
def binnames(h):
  b = h.bools('b', (2, 2))
  v = h.floats('v', (2,))
  mk = lambda: Bn('k', xr.DataArray(b, dims=('k', 'x')))
  agg = aggregation.Aggregator(reduce_dims=['x'], bin_by=[mk(), mk()])
  with h.raises('two binnings with one name', ValueError):
    agg.aggregate_statistics({'S': {'q': xr.DataArray(v, dims=('x',))}})


@SPEC.harness('metric values are named after their metric and variable')
def named(h):
  """compute_metric_values_for_single_chunk end to end."""
  from weatherbenchX.metrics import deterministic
  p = {q: xr.DataArray(h.floats(f'p{q}', (2, 2), nan=True), dims=('x', 'y')) for q in 'ab'}
  t = {q: xr.DataArray(h.floats(f't{q}', (2, 2), nan=True), dims=('x', 'y')) for q in 'ab'}
  w = h.floats('w', (2,), lo=Fraction(1, 8))
  agg = aggregation.Aggregator(reduce_dims=['x'], weigh_by=[WS(w)])
  res = aggregation.compute_metric_values_for_single_chunk(
      {'mae': deterministic.MAE(), 'mse': deterministic.MSE(),
       'bias': deterministic.Bias()}, agg, p, t)
  h.true('names', set(res.data_vars) == {f'{m}.{q}' for m in ('mae', 'mse', 'bias') for q in 'ab'},
         str(list(res.data_vars)))
  wc = cells(w)
  for q in 'ab':
    pc, tc = cells(p[q]), cells(t[q])
    for m, f in (('mae', lambda d: core.f_abs(d)), ('mse', lambda d: f_mul(d, d)), ('bias', lambda d: d)):
      e = objarr((2,), lambda y: f_div(
          fsum([f_mul(f(f_sub(pc[x, y], tc[x, y])), wc[x]) for x in range(2)]),
          fsum(list(wc))))
      h.eq(f'{m}.{q}', res[f'{m}.{q}'], wrapcells(e))
