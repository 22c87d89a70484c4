"""C13: CRPS is the same proper quantity however it is computed."""
from checks.common import *
from weatherbenchX import aggregation
from weatherbenchX.metrics import probabilistic as PR

SPEC = Spec(
    'C13',
    functions=['metrics.probabilistic.CRPSSkill', 'metrics.probabilistic.CRPSSpread',
               'metrics.probabilistic._rankdata', 'metrics.probabilistic.CRPSEnsemble',
               'metrics.probabilistic.CRPSEnsembleDistance',
               'aggregation.Aggregator.aggregate_statistics', 'AggregationState.metric_values'],
    bounds='ensembles of 2-4 members (5 thorough) of any reals including ties, '
           'each NaN or not, target ensembles of 2-3 members; fair and standard '
           'normalisation; pairwise and sorting algorithm; member permutations',
    assumptions=['equal members are ranked in index order (the score does not depend on it)'])

MAXM = 5 if THOROUGH else 4


def pabs(x, y):
  return core.f_abs(f_sub(x, y))


def skill(xs, ys, skip):
  d = [pabs(x, y) for x in xs for y in ys]
  return mean(d, skip)


def mean(d, skip):
  if not skip:
    return f_div(fsum(d), lift_f(len(d)))
  return f_div(fsum(f_ite(c.nan, ZERO, c) for c in d), fsum(fb(b_not(c.nan)) for c in d))


def spread(xs, fair, skip):
  d = [pabs(x, y) for x in xs for y in xs]
  if skip:
    n = fsum(fb(b_not(x.nan)) for x in xs)
    s = fsum(f_ite(c.nan, ZERO, c) for c in d)
  else:
    n, s = lift_f(len(xs)), fsum(d)
  return f_div(s, f_mul(n, f_sub(n, ONE) if fair else n))


def mk(v, dim, name='u'):
  return {name: xr.DataArray(v, dims=('x', dim) if v.ndim == 2 else ('x',), name=name)}


def values(m, P, T):
  """Metric value per x (nothing averaged), through the real statistics."""
  st = {k: s.compute(P, T) for k, s in m.statistics.items()}
  return m.values_from_mean_statistics(st)['u']


def crps(h, m, skip):
  dim = h.choice('dim', ['number', 'realization'])
  fair = h.choice('fair', [True, False])
  p, t = h.floats('p', (1, m), nan=True), h.floats('t', (1,), nan=True)
  a, b = list(cells(p)[0]), cells(t)[0]
  P, T = mk(p, dim), mk(t, dim)
  kw = {} if dim == 'number' else dict(ensemble_dim=dim)
  if not fair: kw['fair'] = False
  if skip: kw['skipna_ensemble'] = True
  want = f_sub(skill(a, [b], skip), f_mul(lift_f(0.5), spread(a, fair, skip)))
  got = values(PR.CRPSEnsemble(**kw), P, T)
  h.true('dims', got.dims == ('x',))
  h.eq('CRPS', got, wrapcells([want]))
  if not fair:
    g = cells(got.data)[0]
    h.true('non-negative', b_or(g.nan, f_le(ZERO, g)))
  bad = b_or(*[x.nan for x in a], b.nan)
  if skip:      # as if the missing members had never been there
    n = sum_i([b_not(x.nan) for x in a])
    h.true('NaN iff no target or too few members', b_iff(
        cells(got.data)[0].nan, b_or(b.nan, i_lt(n, 2 if fair else 1))))
    if not fair:
      one = fsum(f_ite(x.nan, ZERO, x) for x in a)
      h.eq('one member: absolute error', got, wrapcells([pabs(one, b)]), unless=wrapcells_b(b_not(core.i_eq(n, 1))))
    if m > 2:
      q = got
      rest = xr.DataArray(p[:, 1:], dims=('x', dim), name='u')
      h.eq('dropping a missing member', values(PR.CRPSEnsemble(**kw), {'u': rest}, T), got,
           unless=wrapcells_b(b_not(a[0].nan)))
  else:
    h.true('NaN iff an input is NaN', b_iff(cells(got.data)[0].nan, bad))
  # member order
  for perm in itertools.islice(itertools.permutations(range(m)), 1, 6):
    Q = {'u': P['u'].isel({dim: list(perm)})}
    h.eq(f'order {perm}', values(PR.CRPSEnsemble(**kw), Q, T), got)


def wrapcells_b(b):
  return [b]


def b_iff(a, b):
  return b_or(b_and(a, b), b_and(b_not(a), b_not(b)))


def sum_i(bs):
  acc = I(0).v
  for b in bs:
    acc = core.i_add(acc, core.i_ite(b, 1, 0))
  return acc


def i_lt(a, k):
  return core.i_lt(a, k)


for m in range(2, MAXM + 1):
  for skip in (False, True):
    SPEC.add(f'crps[members={m}, skipna={skip}]', (lambda m, s: lambda h: crps(h, m, s))(m, skip), cost=m)


def by_sort(h, m):
  """Sorting gives the pairwise value for every ensemble, ties and NaN included."""
  fair = h.choice('fair', [True, False])
  transposed = h.choice('transposed', [False, True])
  p, t = h.floats('p', (1, m), nan=True), h.floats('t', (1,), nan=True)
  a, b = list(cells(p)[0]), cells(t)[0]
  P, T = mk(p, 'number'), mk(t, 'number')
  if transposed:
    P = {'u': P['u'].transpose()}
  st = PR.CRPSSpread(use_sort=True, fair=fair).compute(P, T)['u']
  h.true('dims', st.dims == ('x',))
  h.eq('spread by sorting', st, wrapcells([spread(a, fair, False)]))
  h.eq('CRPS by sorting', values(PR.CRPSEnsemble(use_sort=True, fair=fair), P, T),
       wrapcells([f_sub(skill(a, [b], False), f_mul(lift_f(0.5), spread(a, fair, False)))]))
  h.eq('default is fair', values(PR.CRPSEnsemble(), P, T), values(PR.CRPSEnsemble(fair=True, use_sort=False), P, T))


for m in range(2, MAXM + 1):
  SPEC.add(f'sorting[members={m}]', (lambda m: lambda h: by_sort(h, m))(m), cost=m)


@SPEC.harness('two rows are ranked separately', cost=2)
def h_rows(h):
  p = h.floats('p', (2, 3))
  P, T = mk(p, 'number'), mk(h.floats('t', (2,)), 'number')
  a = cells(p)
  h.eq('spread by sorting', PR.CRPSSpread(use_sort=True).compute(P, T)['u'],
       wrapcells([spread(list(a[i]), True, False) for i in range(2)]))


@SPEC.harness('rejections')
def h_rej(h):
  P, T = mk(h.floats('p', (1, 1)), 'number'), mk(h.floats('t', (1,)), 'number')
  for s in (True, False):
    with h.raises(f'one member sort={s}', ValueError):
      PR.CRPSSpread(use_sort=s).compute(P, T)
  P2 = mk(h.floats('p2', (1, 3)), 'number')
  with h.raises('sort cannot skip NaN', ValueError):
    PR.CRPSSpread(use_sort=True, skipna_ensemble=True).compute(P2, T)
  with h.raises('which', ValueError):
    PR.CRPSSpread(which='other').compute(P2, T)


def distance(h, m, n, skip):
  fair = h.choice('fair', [True, False])
  sort = h.choice('sort', [False, True]) if not skip else False
  p, t = h.floats('p', (1, m), nan=True), h.floats('t', (1, n), nan=True)
  a, b = list(cells(p)[0]), list(cells(t)[0])
  P, T = mk(p, 'number'), mk(t, 'number')
  got = values(PR.CRPSEnsembleDistance(use_sort=sort, fair=fair, skipna_ensemble=skip), P, T)
  half = lift_f(0.5)
  want = f_sub(f_sub(skill(a, b, skip), f_mul(half, spread(a, fair, skip))), f_mul(half, spread(b, fair, skip)))
  h.eq('distance', got, wrapcells([want]))
  g = cells(got.data)[0]
  if not fair:
    h.true('non-negative', b_or(g.nan, f_le(ZERO, g)))
  h.eq('symmetric', values(PR.CRPSEnsembleDistance(fair=fair, skipna_ensemble=skip), T, P), got)
  if m == n and not fair:
    h.eq('zero from itself', values(PR.CRPSEnsembleDistance(fair=False, skipna_ensemble=skip), P, P),
         wrapcells([f_ite(b_and(*[x.nan for x in a]) if skip else b_or(*[x.nan for x in a]), NAN, ZERO)]))


for m, n in ((2, 2), (3, 2)) + (((3, 3),) if THOROUGH else ()):
  for skip in (False, True):
    SPEC.add(f'distance[{m}x{n}, skipna={skip}]', (lambda m, n, s: lambda h: distance(h, m, n, s))(m, n, skip), cost=4)


@SPEC.harness('aggregated CRPS', cost=2)
def h_agg(h):
  """The metric of an evaluation is the weighted mean of both terms."""
  sort = h.choice('sort', [False, True])
  p, t = h.floats('p', (2, 2)), h.floats('t', (2,))
  r = aggregation.compute_metric_values_for_single_chunk(
      {'m': PR.CRPSEnsemble(use_sort=sort)}, aggregation.Aggregator(reduce_dims=['x']), mk(p, 'number'), mk(t, 'number'))
  a, b = cells(p), cells(t)
  per = [f_sub(skill(list(a[i]), [b[i]], False), f_mul(lift_f(0.5), spread(list(a[i]), True, False))) for i in range(2)]
  h.eq('mean', r['m.u'], wrapcells(np.asarray(f_div(fsum(per), lift_f(2)), dtype=object)))
