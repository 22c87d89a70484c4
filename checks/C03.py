"""C03: partial aggregates can be reduced later and stored without change."""
from checks.common import *
from weatherbenchX import aggregation, binning, weighting
AS = aggregation.AggregationState

SPEC = Spec(
    'C03',
    functions=['aggregation.AggregationState.sum_along_dims', '.dot', '.map',
               '.map_multi', '.to_data_tree', '.from_data_tree', '.to_dataset',
               '.from_dataset', 'aggregation.Aggregator.aggregate_statistics'],
    bounds='statistics of 2x2x2 cells; every split of the reduced dimensions '
           'into two stages; dot products with 1 or 2 arrays over every '
           'dimension subset; round trips of states with 2 statistics x 2 '
           'variables of differing dims and sizes up to 2x2',
    assumptions=['a NaN multiplied by an exactly zero coefficient inside a dot '
                 'product (BLAS gives 0 or NaN) is outside the claim',
                 'variables of one statistic have compatible coordinates for '
                 'to_dataset (documented restriction)'])


class W(weighting.Weighting):
  def __init__(self, da): self.da = da
  def weights(self, statistic): return self.da


class Bn(binning.Binning):
  def __init__(self, name, da):
    super().__init__(name)
    self.da = da
  def create_bin_mask(self, statistic): return self.da


DIMS = ('x', 'y', 'z')


def both(h, got, want, tag, unless=None):
  for nm in ('sum_weighted_statistics', 'sum_weights'):
    g, e = getattr(got, nm), getattr(want, nm)
    h.true(f'{tag} {nm} statistics', set(g) == set(e), f'{set(g)} {set(e)}')
    for s in e:
      h.true(f'{tag} {nm} variables', set(g[s]) == set(e[s]))
      for q in e[s]:
        a, b = g[s][q], e[s][q]
        h.true(f'{tag} {nm}.{s}.{q} dims', set(a.dims) == set(b.dims),
               f'{a.dims} vs {b.dims}')
        h.true(f'{tag} {nm}.{s}.{q} coords', set(a.coords) == set(b.coords),
               f'{set(a.coords)} vs {set(b.coords)}')
        for c in b.coords:
          if b.coords[c].dtype.kind not in 'fc':
            h.true(f'{tag} {nm}.{s}.{q} coord {c}', a.coords[c].values.tolist()
                   == b.coords[c].values.tolist())
          else:
            h.eq(f'{tag} {nm}.{s}.{q} coord {c}', a.coords[c], b.coords[c])
        h.eq(f'{tag} {nm}.{s}.{q}', a.transpose(*b.dims), b)


def two_stage(h, masked, skipna, binned):
  first = h.choice('first', [['x'], ['y'], ['z'], ['x', 'y'], ['y', 'z'], ['x', 'z'], []])
  rest = [d for d in DIMS if d not in first]
  later = h.choice('later', [0, 1, 2, 3])
  later = {0: rest, 1: rest[:1], 2: rest[1:], 3: rest[::-1]}[later]
  h.assume(bool(later))
  st = {'S': {}, 'T': {}}
  for s, q in (('S', 'a'), ('T', 'a')):
    v = h.floats(s + q, (2, 2, 2), nan=not binned)
    co = {}
    if masked:
      co['mask'] = (DIMS, h.bools('m' + s + q, (2, 2, 2)))
    st[s][q] = xr.DataArray(v, dims=DIMS, coords=co)
  wx = h.floats('wx', (2,), lo=Fraction(1, 8))
  wy = h.floats('wy', (2,), lo=Fraction(1, 8))
  kw = dict(weigh_by=[W(xr.DataArray(wx, dims=('x',))), W(xr.DataArray(wy, dims=('y',)))],
            masked=masked, skipna=skipna)
  if binned:
    kw['bin_by'] = [Bn('k', xr.DataArray(h.bools('b', (2, 2)), dims=('k', 'z')))]
  direct = aggregation.Aggregator(reduce_dims=first + list(later), **kw).aggregate_statistics(st)
  part = aggregation.Aggregator(reduce_dims=first, **kw).aggregate_statistics(st)
  as_type = [list, tuple, set][len(first)]
  staged = part.sum_along_dims(as_type(later))
  both(h, staged, direct, 'staged')
  if len(later) == 2:
    both(h, part.sum_along_dims([later[0]]).sum_along_dims([later[1]]), direct, 'one by one')


for _m, _s, _b in itertools.product([False, True], repeat=3):
  SPEC.add(f'two-stage reduction equals one-stage[masked={_m},skipna={_s},binned={_b}]',
           (lambda m, s, b: lambda h: two_stage(h, m, s, b))(_m, _s, _b), cost=4)


def state(h, shapes, tag='', coords=None, nan=True):
  """Arbitrary state; shapes: {(stat, var): (dims, shape)}."""
  parts = []
  for kind in ('s', 'w'):
    d = {}
    for (s, q), (dims, sh) in shapes.items():
      co = {k: v for k, v in (coords or {}).items() if k in dims}
      d.setdefault(s, {})[q] = xr.DataArray(
          h.floats(f'{tag}{kind}.{s}.{q}', sh, nan=nan), dims=dims, coords=co)
    parts.append(d)
  return AS(*parts)


SHAPES = {('S', 'a'): (('x', 'y'), (2, 2)), ('S', 'b'): (('x',), (2,)),
          ('T', 'a'): (('x', 'y'), (2, 2))}


@SPEC.harness('NaN sums stay NaN when reduced')
def nan_sum(h):
  st = state(h, SHAPES)
  red = st.sum_along_dims(['x'])
  for nm in ('sum_weighted_statistics', 'sum_weights'):
    for (s, q) in SHAPES:
      c = cells(getattr(st, nm)[s][q])
      e = objarr(c.shape[1:], lambda *i: f_add(c[(0,) + i], c[(1,) + i]))
      h.eq(f'{nm}.{s}.{q}', getattr(red, nm)[s][q], wrapcells(e))


@SPEC.harness('dot applies the same combination to sums and weights')
def dot(h):
  st = state(h, SHAPES, nan=False)
  two = h.choice('two arrays', [False, True])
  dims = h.choice('dims', ['x', ['x'], ['x', 'r']])
  r = h.floats('r', (2, 2))          # e.g. resampling weights
  u = h.floats('u', (2,))
  R, U = xr.DataArray(r, dims=('r', 'x')), xr.DataArray(u, dims=('x',))
  got = st.dot(*([R, U] if two else [R]), dim=dims)
  rc, uc = cells(r), cells(u)
  for nm in ('sum_weighted_statistics', 'sum_weights'):
    for (s, q) in SHAPES:
      c = cells(getattr(st, nm)[s][q])
      c = c.reshape(2, -1)
      coef = lambda k, x: f_mul(rc[k, x], uc[x]) if two else rc[k, x]
      rows = [[fsum([f_mul(coef(k, x), c[x, y]) for x in range(2)])
               for y in range(c.shape[1])] for k in range(2)]
      if dims == ['x', 'r']:
        e = np.array([f_add(p, q2) for p, q2 in zip(*rows)], dtype=object)
      else:
        e = np.array(rows, dtype=object)
      g = getattr(got, nm)[s][q]
      if 'r' in g.dims:
        g = g.transpose('r', ...)
      h.eq(f'{nm}.{s}.{q}', np.ravel(g.data), wrapcells(e.ravel()))


@SPEC.harness('map reaches every array once')
def mapped(h):
  st, st2 = state(h, SHAPES), state(h, SHAPES, '2')
  k = h.floats('k', ())
  got = st.map(lambda x: x * 2 - k)
  got2 = AS.map_multi(lambda x, y: x - y * 3, st, st2)
  kc = cells(k)[()]
  for nm in ('sum_weighted_statistics', 'sum_weights'):
    for (s, q) in SHAPES:
      c, d = cells(getattr(st, nm)[s][q]), cells(getattr(st2, nm)[s][q])
      h.eq(f'map {nm}.{s}.{q}', getattr(got, nm)[s][q], wrapcells(
          objarr(c.shape, lambda *i: f_sub(f_mul(lift_f(2), c[i]), kc))))
      h.eq(f'map_multi {nm}.{s}.{q}', getattr(got2, nm)[s][q], wrapcells(
          objarr(c.shape, lambda *i: f_sub(c[i], f_mul(lift_f(3), d[i])))))
  with h.raises('mapping a zero state', ValueError):
    AS.map_multi(lambda x, y: x, st, AS.zero())


RT = {
    'plain': {('S', 'a'): (('x', 'y'), (2, 2)), ('S', 'b'): (('x',), (2,)),
              ('T', 'a'): (('x', 'y'), (2, 2))},
    'scalar': {('S', 'a'): ((), ()), ('S_b', 'a'): ((), ()), ('S', 'a_b'): ((), ())},
    'dotted': {('Error.x_1', '2m_temperature'): (('x',), (2,)),
               ('Error.x_1', 'wind.u'): (('y', 'x'), (2, 2)),
               ('CRPS(skipna=False)', '2m_temperature'): (('x',), (2,))},
    'one': {('SquaredError', 'z'): (('x',), (1,))},
    'like the attribute': {('sum_weights', 'sum_weighted_statistics'): (('x',), (2,)),
                           ('sum_weighted_statistics', 'sum_weights'): (('x',), (2,))},
}


def roundtrip(h, shapes, coords):
  st = state(h, shapes, coords=coords)
  tree = st.to_data_tree()
  both(h, AS.from_data_tree(tree), st, 'tree')
  for sep in ('#', '@'):
    ds = st.to_dataset(separator=sep)
    both(h, AS.from_dataset(ds, separator=sep), st, f'dataset{sep}')
  both(h, AS.from_dataset(st.to_dataset()), st, 'dataset')
  # a round trip does not change what is computed from the state
  m0, m1 = st.mean_statistics(), AS.from_dataset(st.to_dataset()).mean_statistics()
  for (s, q) in shapes:
    h.eq(f'mean.{s}.{q}', m1[s][q].transpose(*m0[s][q].dims), m0[s][q])


for _n, _s in RT.items():
  for _c in (None, {'x': np.array([3, 1]), 'y': np.array(['b', 'a'])}):
    if _c and _n in ('scalar',):
      continue
    if _c and _n == 'one':
      _c = {'x': np.array(['2020-01-01'], 'M8[ns]')}
    SPEC.add(f'round trip[{_n},coords={bool(_c)}]',
             (lambda s, c: lambda h: roundtrip(h, s, c))(_s, _c))


@SPEC.harness('storing and merging commute')
def store_merge(h):
  labs = h.choice('labels', [([0, 1], [2, 3]), ([0, 1], [1, 2]), ([0, 1], [0, 1]), ([1, 0], [2, 1])])
  sts = []
  for i in range(2):
    sts.append(state(h, SHAPES, f'p{i}', coords={'x': np.array(labs[i])}))
  want = sts[0] + sts[1]
  stored = [AS.from_dataset(s.to_dataset()) for s in sts]
  both(h, stored[0] + stored[1], want, 'dataset')
  stored = [AS.from_data_tree(s.to_data_tree()) for s in sts]
  both(h, AS.sum(stored), want, 'tree')
