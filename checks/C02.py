"""C02: merging partial aggregates is chunking/order independent."""
from checks.common import *
from weatherbenchX import aggregation, binning, weighting
AS = aggregation.AggregationState

SPEC = Spec(
    'C02',
    functions=['aggregation.AggregationState.sum/__add__/zero/mean_statistics',
               'aggregation.combining_sum', 'xarray_tree.map_structure',
               'aggregation.Aggregator.aggregate_statistics'],
    bounds='up to 4x2 cells split into up to 4 chunks at every position; every '
           'order and every binary grouping of up to 3 partial states; label '
           'sets of up to 3 labels per state with every overlap; two statistics '
           'x two variables',
    assumptions=['partial states to be merged have the same statistics and '
                 'variables (states of one evaluation)'])


class W(weighting.Weighting):
  def __init__(self, w): self.w = w
  def weights(self, statistic):
    return xr.DataArray(self.w, dims=('x',), coords={'x': np.arange(len(self.w))}).sel(x=statistic.x)


def chunk(h, *, masked, skipna, weigh, reduce):
  n, m = 3, 2
  v = h.floats('v', (n, m), nan=True)
  mk = h.bools('m', (n, m))
  w = h.floats('w', (n,), lo=0)
  h.assume(w > 0)   # NaN * 0 is left to BLAS (0 or NaN)
  u = h.floats('u', (n, m), nan=True)
  coords = {'x': np.arange(n), 'y': np.arange(m) * 6}
  mkda = lambda d: xr.DataArray(d, dims=('x', 'y'), coords={
      **coords, **({'mask': (('x', 'y'), mk)} if masked else {})})
  V, U = mkda(v), mkda(u)
  agg = aggregation.Aggregator(reduce_dims=reduce, masked=masked, skipna=skipna,
                               weigh_by=[W(w)] if weigh else None)

  def part(**isel):
    return agg.aggregate_statistics({
        'S': {'a': V.isel(**isel), 'b': U.isel(**isel)}, 'T': {'a': U.isel(**isel)}})
  whole = part()
  cut1 = h.pick_int('cut1', 0, n)
  cut2 = h.pick_int('cut2', 0, n)
  h.assume(cut1 <= cut2)
  dim = h.choice('dim', ['x', 'y'])
  if dim == 'y':
    h.assume(cut2 <= m)
  size = n if dim == 'x' else m
  sl = [slice(0, cut1), slice(cut1, cut2), slice(cut2, size)]
  sl = [s for s in sl if s.stop > s.start]
  parts = [part(**{dim: s}) for s in sl]
  order = h.choice('order', [0, 1, 2])
  parts = parts[order % len(parts):] + parts[:order % len(parts)]
  how = h.choice('how', ['sum', 'left', 'right', 'zero'])
  if how == 'sum':
    tot = AS.sum(iter(parts))
  elif how == 'left':
    tot = parts[0]
    for p in parts[1:]:
      tot = tot + p
  elif how == 'right':
    tot = parts[-1]
    for p in parts[:-1][::-1]:
      tot = p + tot
  else:
    tot = AS.zero()
    for p in parts:
      tot = AS.sum([AS.zero(), tot + p, AS.zero()])
  compare(h, tot, whole, '')


def compare(h, got, want, tag):
  for s in want.sum_weighted_statistics:
    for q in want.sum_weighted_statistics[s]:
      for nm, g, e in (('sws', got.sum_weighted_statistics, want.sum_weighted_statistics),
                       ('sw', got.sum_weights, want.sum_weights)):
        g, e = g[s][q], e[s][q]
        h.true(f'{tag}{nm}.{s}.{q} dims', set(g.dims) == set(e.dims))
        for d in e.dims:
          if d in e.coords:
            h.true(f'{tag}{nm} labels',
                   sorted(g.coords[d].values.tolist()) == sorted(e.coords[d].values.tolist()),
                   f'{g.coords[d].values} vs {e.coords[d].values}')
        g = g.transpose(*e.dims)
        g = g.sel({d: e.coords[d].values for d in e.dims if d in e.coords})
        h.eq(f'{tag}{nm}.{s}.{q}', g, e)


for masked, skipna, weigh, red in [
    (False, False, True, ['x']), (True, False, True, ['x']),
    (False, True, False, ['x']), (True, True, False, ['x', 'y']),
    (False, False, False, ['x', 'y']), (False, False, False, ['y']),
    (True, False, True, [])]:
  SPEC.add(f'chunk[masked={masked},skipna={skipna},weigh={weigh},reduce={red}]',
           (lambda a, b, c, d: lambda h: chunk(
               h, masked=a, skipna=b, weigh=c, reduce=d))(masked, skipna, weigh, red),
           cost=5)


def state(h, i, labels, dims2, nan=True):
  """An arbitrary partial state with labels on dimension k."""
  sh = (len(labels),) + ((2,) if dims2 else ())
  d = ('k',) + (('z',) if dims2 else ())
  mk = lambda nm, nan: xr.DataArray(h.floats(f'{nm}{i}', sh, nan=nan), dims=d,
                                    coords={'k': np.array(labels)})
  return AS({'S': {'a': mk('sa', nan), 'b': mk('sb', nan)}, 'T': {'a': mk('ta', nan)}},
            {'S': {'a': mk('wa', False), 'b': mk('wb', False)}, 'T': {'a': mk('wt', False)}})


LABELS = [[0, 1], [1, 2], [0, 2], [2], [0, 1, 2], [2, 1]]


def merge(h, dims2, strs):
  sets = []
  n = h.choice('n', [2, 3])
  cands = LABELS if n == 2 else LABELS[:5]
  for i in range(n):
    l = h.choice(f'lab{i}', cands)
    if strs:
      l = ['abc'[x] for x in l]
    sets.append(l)
  sts = [state(h, i, sets[i], dims2) for i in range(n)]
  union = sorted(set(sum(sets, [])))
  how = h.choice('how', range(4))
  s = sts
  if how == 0:
    tot = AS.sum(s)
  elif how == 1:
    tot = s[0] + s[1] if n == 2 else (s[0] + s[1]) + s[2]
  elif how == 2:
    tot = s[1] + s[0] if n == 2 else s[0] + (s[1] + s[2])
  else:
    tot = AS.sum(s[::-1] + [AS.zero()])
  # oracle: per-label sum over the states that have the label
  def want(get):
    out = []
    for lab in union:
      acc = None
      for st, ls in zip(sts, sets):
        if lab in ls:
          c = cells(get(st))[ls.index(lab)]
          c = np.atleast_1d(np.asarray(c, dtype=object))
          acc = c if acc is None else np.array([f_add(p, q) for p, q in zip(acc, c)], dtype=object)
      out.append(acc)
    return out
  for nm in ('sum_weighted_statistics', 'sum_weights'):
    for sn, q in (('S', 'a'), ('S', 'b'), ('T', 'a')):
      g = getattr(tot, nm)[sn][q]
      h.true('labels', sorted(g.k.values.tolist()) == union, f'{g.k.values} {union}')
      w = want(lambda st: getattr(st, nm)[sn][q])
      for lab, e in zip(union, w):
        h.eq(f'{nm}.{sn}.{q}[{lab}]', np.ravel(g.sel(k=lab).data), wrapcells(e))
  h.true('structure', set(tot.sum_weighted_statistics) == {'S', 'T'}
         and set(tot.sum_weighted_statistics['S']) == {'a', 'b'}
         and set(tot.sum_weights['S']) == {'a', 'b'})
  # mean is formed from the merged sums only
  mean = tot.mean_statistics()['S']['a']
  g = cells(tot.sum_weighted_statistics['S']['a'].data)
  w = cells(tot.sum_weights['S']['a'].data)
  h.eq('mean', mean, wrapcells(objarr(g.shape, lambda *i: f_div(g[i], w[i]))))


SPEC.add('merge[1d,int labels]', lambda h: merge(h, False, False), cost=9)
SPEC.add('merge[2d,str labels]', lambda h: merge(h, True, True), cost=9)


@SPEC.harness('zero')
def zero(h):
  st = state(h, 0, [0, 1], False)
  z = AS.zero()
  h.true('zero+zero', (z + z).sum_weighted_statistics is None and (z + z).sum_weights is None)
  h.true('sum([])', AS.sum([]).sum_weighted_statistics is None)
  h.true('sum(zeros)', AS.sum([z, z, z]).sum_weights is None)
  h.true('zero reduces to zero', z.sum_along_dims(['x']).sum_weighted_statistics is None)
  for tag, t in (('z+s', z + st), ('s+z', st + z), ('sum1', AS.sum([st])),
                 ('sum zsz', AS.sum([z, st, z]))):
    compare(h, t, st, tag)
  with h.raises('map of zero state is rejected', ValueError):
    z.map(lambda x: x)


@SPEC.harness('merge[large, same-size label sets]')
def large(h):
  """Longer axes: equal-length, shifted, reversed and disjoint label sets."""
  n, z = 9, 3
  base = list(range(0, 2 * n, 2))
  labs = [base, h.choice('other', [base, [x + 2 for x in base], base[::-1],
                                   [x + 1 for x in base], [x + 2 * n for x in base],
                                   base[1:], base[3:] + [99]])]
  das = []
  for i, l in enumerate(labs):
    das.append(xr.DataArray(h.floats(f'v{i}', (len(l), z)), dims=('k', 'z'),
                            coords={'k': np.array(l), 'z': [1., 2., 3.]}))
  sts = [AS({'S': {'a': d}}, {'S': {'a': d * 2}}) for d in das]
  tot = sts[0] + sts[1]
  union = sorted(set(labs[0]) | set(labs[1]))
  for nm, f in (('sum_weighted_statistics', 1), ('sum_weights', 2)):
    g = getattr(tot, nm)['S']['a']
    h.true('labels', sorted(g.k.values.tolist()) == union)
    for lab in union:
      for j in range(z):
        e = fsum([cells(d.data)[l.index(lab), j] for d, l in zip(das, labs) if lab in l])
        h.eq(f'{nm}[{lab},{j}]', np.ravel(g.sel(k=lab).transpose('z').data)[j:j + 1],
             wrapcells([f_mul(lift_f(f), e)]))
