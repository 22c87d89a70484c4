"""C23: bootstrap resampling, intervals and p-values (statistical_inference/bootstrap.py)."""
from checks.common import *
import contextlib
import types
from unittest import mock
import pandas as pd
from symx import jaxsym
from checks.C25 import St, means
from weatherbenchX import aggregation
from weatherbenchX.metrics import base as mb, deterministic as det
from weatherbenchX.statistical_inference import autodiff, bootstrap, utils

jaxsym.install(autodiff)

SPEC = Spec(
    'C23',
    functions=[
        'statistical_inference.bootstrap.IIDBootstrap / ClusterBootstrap / StationaryBootstrap',
        'statistical_inference.bootstrap.stationary_bootstrap_indices',
        'statistical_inference.bootstrap.Bootstrap (intervals, standard errors, p-values)',
        'statistical_inference.utils.apply_to_slices / logarithmic_round',
        'aggregation.AggregationState.dot / sum_along_dims / mean_statistics',
    ],
    bounds='2-4 units, 1-3 clusters, 1-3 replicates for whole methods; 1-6 units '
           'and 1-3 replicates for the stationary indices; 1-5 replicates for '
           'intervals and p-values; every draw, statistic and weight symbolic',
    assumptions=[
        'numpy.random.multinomial(n, p) returns counts that add up to n, randint '
        'values in range, rand values in [0,1) (the distribution is numpy\'s)',
        'floating point rounding is outside the claim',
    ],
    stubs=['numpy.random.multinomial / randint / rand: symbolic draws',
           'arch.bootstrap.optimal_block_length: recorded, returns chosen lengths',
           'jax tracing (see C25)'],
)

R = 'bootstrap_replicate'
K = lambda x: lift_f(Fraction(x))


class Ratio(mb.PerVariableMetric):
  """A nonlinear metric of two statistics."""

  @property
  def statistics(self):
    return {'x': St('sa'), 'y': St('sb')}

  def _values_from_mean_statistics_per_variable(self, statistic_values):
    return statistic_values['x'] / statistic_values['y']


class Draws:
  """Symbolic numpy.random; remembers every call."""

  def __init__(self, h):
    self.h, self.calls = h, []

  def multinomial(self, n, pvals, size=None):
    k = len(pvals)
    b = int(size)
    c = self.h.ints(f'counts{len(self.calls)}', (b, k), 0, int(n))
    for i in range(b):
      self.h.assume(core.i_eq(_isum(c[i]), int(n)))
    self.calls.append(('multinomial', int(n), [float(p) for p in np.asarray(pvals)], b))
    self.counts = cells(c)
    return c

  def randint(self, low, high=None, size=None, dtype=int):
    lo, hi = (0, low) if high is None else (low, high)
    x = self.h.ints(f'i{len(self.calls)}', tuple(np.atleast_1d(size)), int(lo), int(hi) - 1)
    self.calls.append(('randint', int(lo), int(hi), cells(x)))
    return x

  def rand(self, *shape):
    x = self.h.floats(f'u{len(self.calls)}', shape, lo=0, hi=Fraction(999, 1000))
    self.calls.append(('rand', shape, cells(x)))
    return x

  def _bad(self, *a, **k):
    raise core.Unsupported('another random number source')

  @contextlib.contextmanager
  def on(self):
    with contextlib.ExitStack() as s:
      for n in ('multinomial', 'randint', 'rand'):
        s.enter_context(mock.patch.object(np.random, n, getattr(self, n)))
      for n in ('choice', 'random', 'uniform', 'default_rng', 'integers', 'permutation', 'random_sample', 'binomial', 'poisson', 'geometric'):
        if hasattr(np.random, n):
          s.enter_context(mock.patch.object(np.random, n, self._bad))
      yield self


def _isum(row):
  t = 0
  for x in cells(row).ravel():
    t = core.i_add(t, x.v if isinstance(x, I) else int(x))
  return t


def count(c):
  """Integer cell -> real cell."""
  return lift_f(c)


def make(h, n, variables=('v',), levels=None, stats=('sa', 'sb'), nan=False, coord=None, extra=None, weights=True, tag=''):
  sws, sw = {}, {}
  for k in stats:
    sws[k], sw[k] = {}, {}
    for v in variables:
      dims = ['unit'] + (['level'] if levels else [])
      shp = [n] + ([levels] if levels else [])
      co = {'unit': np.arange(n) * 2 if coord is None else coord}
      if coord is False:
        co = {}
      if levels:
        co['level'] = np.arange(levels) * 10
      co.update(extra or {})
      x = h.floats(tag + k + v, shp, lo=1, hi=8, nan=nan)
      w = h.floats(tag + 'w' + k + v, [n], lo=1, hi=4) if weights else np.ones(n)
      sws[k][v] = xr.DataArray(x, dims=dims, coords=co)
      sw[k][v] = xr.DataArray(w, dims=['unit'], coords={d: c for d, c in co.items() if d != 'level'})
  return aggregation.AggregationState(sws, sw)


def total(st, k, v, l, mult):
  """Weighted mean of statistic k when unit i is counted mult[i] times."""
  x = st.sum_weighted_statistics[k][v]
  w = cells(st.sum_weights[k][v])
  xs = cells(x)
  n = len(w)
  a = fsum(f_mul(mult[i], xs[(i, l) if xs.ndim == 2 else (i,)]) for i in range(n))
  b = fsum(f_mul(mult[i], w[i]) for i in range(n))
  return f_div(a, b)


METRICS = {'m': lambda: St('sa'), 'r': lambda: Ratio()}


def value(st, m, v, l, mult):
  a = total(st, 'sa', v, l, mult)
  return a if m == 'm' else f_div(a, total(st, 'sb', v, l, mult))


def compare(h, r, st, n, reps, mults, variables, levels, loose=()):
  """Point estimates and replicates of every metric, variable and level."""
  pe, rs = r.point_estimates(), r.resampled_values
  h.true('metrics', set(pe) == set(rs) == set(METRICS))
  ld = {'level'} if levels else set()
  for m in METRICS:
    h.true('variables', set(pe[m]) == set(rs[m]) == set(variables))
    for v in variables:
      h.true('dims', set(pe[m][v].dims) == ld and set(rs[m][v].dims) == ld | {R},
             str(rs[m][v].dims))
      h.true('replicates', rs[m][v].sizes[R] == reps)
      order = (['level'] if levels else []) + [R]
      got = cells(rs[m][v].transpose(*order))
      p = cells(pe[m][v])
      for l in range(levels or 1):
        h.eq(f'point estimate of {m}', wrapcells([p[l] if levels else p[()]]),
             wrapcells([value(st, m, v, l, [ONE] * n)]))
        for b in range(reps):
          e = value(st, m, v, l, mults(b))
          g = got[(l, b) if levels else (b,)]
          if loose:
            # a missing unit may spoil a replicate that does not use it
            h.check(f'replicate of {m} is missing or the resampled metric',
                    b_or(g.nan, b_and(b_not(e.nan), f_eq(g, e))))
            used = b_or(*[b_and(b_not(f_eq(mults(b)[i], ZERO)), x) for i, x in enumerate(loose[0](v, l))])
            h.check(f'replicate of {m} is missing iff', b_and(
                b_or(b_not(used), g.nan), b_or(b_not(g.nan), *loose[0](v, l))))
          else:
            h.eq(f'replicate of {m}', wrapcells([g]), wrapcells([e]))


def iid(h, n, reps, variables=('v',), levels=None):
  st = make(h, n, variables, levels)
  with Draws(h).on() as d:
    r = bootstrap.IIDBootstrap({k: f() for k, f in METRICS.items()}, st, experimental_unit_dim='unit', n_replicates=reps)
  h.true('one shared draw of as many units', len(d.calls) == 1 and d.calls[0][1] == n and d.calls[0][3] == reps, str(d.calls))
  h.true('every unit is equally likely', np.allclose(d.calls[0][2], 1 / n) and len(d.calls[0][2]) == n)
  compare(h, r, st, n, reps, lambda b: [count(d.counts[b, i]) for i in range(n)], variables, levels)


for a in ((2, 1), (3, 2), (2, 2, ('v', 'w'), 2), (4, 1), (1, 1)):
  SPEC.add(f'IID{a}', (lambda a: lambda h: iid(h, *a))(a), cost=3)


def cluster(h, ids, reps, variables=('v',), levels=None, own=False):
  n = len(ids)
  cid = np.asarray(ids)
  st = make(h, n, variables, levels, extra={} if own else {'cl': ('unit', cid)}, coord=cid if own else None)
  uniq = sorted(set(ids))
  with Draws(h).on() as d:
    r = bootstrap.ClusterBootstrap({k: f() for k, f in METRICS.items()}, st,
                                   experimental_unit_coord='unit' if own else 'cl', n_replicates=reps)
  c = d.calls
  h.true('one shared draw of as many clusters', len(c) == 1 and c[0][1] == len(uniq) and c[0][3] == reps, str(c))
  h.true('every cluster is equally likely', np.allclose(c[0][2], 1 / len(uniq)) and len(c[0][2]) == len(uniq))
  compare(h, r, st, n, reps,
          lambda b: [count(d.counts[b, uniq.index(i)]) for i in ids], variables, levels)


D_ = np.datetime64
for ids in ((1, 0, 1), (5, 5, 2, 5), (3, 1, 2), (0, 0), ('b', 'a', 'b'), (2019, 2020, 2019, 2020)):
  SPEC.add(f'cluster{ids}', (lambda i: lambda h: cluster(h, i, 1))(ids), cost=3)
SPEC.add('cluster two variables', lambda h: cluster(h, (7, 3, 7), 2, ('v', 'w'), 2), cost=3)
SPEC.add('cluster by the dimension itself', lambda h: cluster(h, (4, 2, 4), 1, own=True), cost=3)


def missing(h, kind, n):
  """A missing unit never counts as a value."""
  st = make(h, n, ('v',), 2, nan=True)
  with Draws(h).on() as d:
    ms = {k: f() for k, f in METRICS.items()}
    if kind == 'iid':
      r = bootstrap.IIDBootstrap(ms, st, experimental_unit_dim='unit', n_replicates=1)
    else:
      r = bootstrap.StationaryBootstrap(ms, st, experimental_unit_dim='unit', n_replicates=1, mean_block_length=2.0)
  if kind == 'iid':
    mult = [count(d.counts[0, i]) for i in range(n)]
  else:
    mult = multiplicity(draw_indices(h, d, n, 2.0, 0), 0, n)
  rs = r.resampled_values
  xs = {k: cells(st.sum_weighted_statistics[k]['v']) for k in ('sa', 'sb')}
  for m in METRICS:
    g = cells(rs[m]['v'].transpose('level', R))
    for l in range(2):
      ks = ['sa'] if m == 'm' else ['sa', 'sb']
      nan = [b_or(*[xs[k][i, l].nan for k in ks]) for i in range(n)]
      used = b_or(*[b_and(nan[i], b_not(f_eq(mult[i], ZERO))) for i in range(n)])
      h.check(f'replicate of {m} with a missing unit', b_or(b_not(used), g[l, 0].nan))
      h.check(f'replicate of {m} without missing units', b_or(b_or(*nan), b_not(g[l, 0].nan)))
      clean = {k: [f_ite(xs[k][i, l].nan, ZERO, xs[k][i, l]) for i in range(n)] for k in ks}
      w = {k: cells(st.sum_weights[k]['v']) for k in ks}
      t = [f_div(fsum(f_mul(mult[i], clean[k][i]) for i in range(n)),
                 fsum(f_mul(mult[i], w[k][i]) for i in range(n))) for k in ks]
      e = t[0] if m == 'm' else f_div(t[0], t[1])
      h.eq(f'replicate of {m}', wrapcells([g[l, 0]]), wrapcells([e]), unless=g[l, 0].nan)


SPEC.add('missing units iid', lambda h: missing(h, 'iid', 2), cost=3)
SPEC.add('missing units stationary', lambda h: missing(h, 'stationary', 2), cost=3)


# -- stationary bootstrap ---------------------------------------------------
def draw_indices(h, d, n, length, start, reps=1):
  """Indices (n, reps) that the recorded draws stand for."""
  calls = d.calls[start:start + 2 * n - 1]
  kinds = [c[0] for c in calls]
  h.true('a start and then a uniform number and an index per step',
         len(calls) == 2 * n - 1 and kinds[0] == 'randint' and all(
             set(kinds[1 + 2 * t:3 + 2 * t]) == {'rand', 'randint'} for t in range(n - 1)), str(kinds))
  for c in calls:
    if c[0] == 'randint':
      h.true('any unit may be drawn', c[1] == 0 and c[2] == n)
    h.true('one per replicate', c[-1].shape == (reps,), str(c[-1].shape))
  out = np.empty((n, reps), dtype=object)
  L = length if isinstance(length, F) else K(length)
  for b in range(reps):
    out[0, b] = ival(calls[0][-1][b])
    for t in range(1, n):
      two = calls[2 * t - 1:2 * t + 1]
      u = lift_f(next(c for c in two if c[0] == 'rand')[-1][b])
      new = ival(next(c for c in two if c[0] == 'randint')[-1][b])
      nxt = core.i_mod(core.i_add(out[t - 1, b], 1), n)
      out[t, b] = core.i_ite(f_lt(u, f_div(ONE, L)), new, nxt)
  return out


def ival(c):
  return c.v if isinstance(c, I) else int(c)


def multiplicity(idx, b, n):
  return [fsum(f_ite(core.i_eq(idx[t, b], i), ONE, ZERO) for t in range(n)) for i in range(n)]


def indices(h, n, reps, length=None):
  """stationary_bootstrap_indices: wrapped blocks with geometric lengths."""
  L = length if length is not None else h.floats('L', (), lo=1, hi=50)
  with Draws(h).on() as d:
    got = bootstrap.stationary_bootstrap_indices(n, L, reps)
  h.true('shape', tuple(got.shape) == (n, reps), str(got.shape))
  e = draw_indices(h, d, n, lift_f(cells(L)[()]) if length is None else length, 0, reps)
  h.true('no other draws', len(d.calls) == 2 * n - 1)
  g = cells(got)
  for t in range(n):
    for b in range(reps):
      x = ival(g[t, b])
      h.check('in range', b_and(core.i_le(0, x), core.i_lt(x, n)))
      h.check('block', core.i_eq(x, e[t, b]))


for a in ((1, 2), (2, 1), (3, 2), (5, 1), (6, 3, 1.0), (4, 2, 4.0), (4, 2, 1.0)):
  SPEC.add(f'stationary indices{a}', (lambda a: lambda h: indices(h, *a))(a))


def stationary(h, n, reps, variables=('v',), levels=None, length=2.0):
  st = make(h, n, variables, levels)
  with Draws(h).on() as d:
    r = bootstrap.StationaryBootstrap({k: f() for k, f in METRICS.items()}, st, experimental_unit_dim='unit',
                                      n_replicates=reps, mean_block_length=length)
  idx = draw_indices(h, d, n, length, 0, reps)
  h.true('one shared draw', len(d.calls) == 2 * n - 1, str(len(d.calls)))
  compare(h, r, st, n, reps, lambda b: multiplicity(idx, b, n), variables, levels)


for a in ((2, 1), (3, 1), (2, 2), (2, 1, ('v', 'w'), 2), (3, 1, ('v',), None, 1.0), (1, 1)):
  SPEC.add(f'stationary{a}', (lambda a: lambda h: stationary(h, *a))(a), cost=3)


# -- intervals, standard errors, p-values -----------------------------------
class Given(bootstrap.Bootstrap):
  """A bootstrap whose replicates are supplied."""

  def __init__(self, values):
    self._resampled_values = values
    self._point_estimates = None


def f_sorted(xs):
  xs = list(xs)
  for i in range(len(xs)):
    for j in range(len(xs) - 1 - i):
      a, b = xs[j], xs[j + 1]
      xs[j], xs[j + 1] = f_min(a, b), f_max(a, b)
  return xs


def quantile(xs, q):
  """Linearly interpolated order statistics of the numbers xs."""
  xs = f_sorted(xs)
  pos = Fraction(q) * (len(xs) - 1)
  i = int(pos)
  if i == len(xs) - 1:
    return xs[i]
  w = pos - i
  return f_add(f_mul(K(1 - w), xs[i]), f_mul(K(w), xs[i + 1]))


def given(h, n, nan=None, levels=None):
  """Replicates; `nan` of them are missing (which ones is explored)."""
  shp = [n] + ([levels] if levels else [])
  if isinstance(nan, tuple):      # known replicates
    x, nan = np.asarray(nan, float), 0
  else:
    x = h.floats('x', shp, lo=-8, hi=8)
  valid = list(range(n))
  if nan:
    valid = h.choice('valid', list(itertools.combinations(range(n), n - nan)))
    mask = np.isin(np.arange(n), valid)
    x = np.where(mask.reshape([-1] + [1] * (len(shp) - 1)), x, np.nan)
  da = xr.DataArray(x, dims=[R] + (['level'] if levels else []),
                    coords={'level': [5, 7][:levels]} if levels else {})
  c = cells(da)
  series = [[lift_f(c[(i, l) if levels else (i,)]) for i in valid] for l in range(levels or 1)]
  return Given({'m': {'v': da}}), series


ALPHAS = (0.0, 0.125, 0.25, 0.5, 0.75, 1.0)


def interval(h, n, nan=0, levels=None):
  r, series = given(h, n, nan, levels)
  for a in ALPHAS:
    lo, hi = (cells(t['m']['v']).ravel() for t in r.confidence_intervals(a))
    for l, xs in enumerate(series):
      e = [quantile(xs, Fraction(a) / 2), quantile(xs, 1 - Fraction(a) / 2)] if xs else [NAN, NAN]
      h.eq(f'lower {a}', wrapcells([lo[l]]), wrapcells([e[0]]))
      h.eq(f'upper {a}', wrapcells([hi[l]]), wrapcells([e[1]]))
  se = cells(r.standard_error_estimates()['m']['v']).ravel()
  for l, xs in enumerate(series):
    k = len(xs)
    if k < 2:
      h.check('no standard error of one value', lift_f(se[l]).nan)
      continue
    m = f_div(fsum(xs), K(k))
    v = f_div(fsum(f_mul(f_sub(x, m), f_sub(x, m)) for x in xs), K(k - 1))
    h.eq('standard error', wrapcells([se[l]]), wrapcells([core.f_sqrt(v)]))


for a in ((1,), (2,), (3,), (4,), (3, 1), (3, 2), (3, 3), (2, 0, 2)) + (((5,),) if THOROUGH else ()):
  SPEC.add(f'interval{a}', (lambda a: lambda h: interval(h, *a))(a))


def pvalues(h, n, nan=0, levels=None):
  """p is twice the smaller tail, and below alpha iff the interval excludes it."""
  r, series = given(h, n, nan, levels)
  null = h.floats('null', (), lo=-8, hi=8)
  N = lift_f(cells(null)[()])
  ps = cells(r.p_values(null)['m']['v']).ravel()
  sig = cells(r.significance_tests(null, 0.25)['m']['v']).ravel()
  for l, xs in enumerate(series):
    p = lift_f(ps[l])
    if not xs:
      h.check('no p-value', p.nan)
      h.check('not significant', b_not(core.to_b(sig[l])))
      continue
    h.check('p in [0,1]', b_and(b_not(p.nan), f_le(ZERO, p), f_le(p, ONE)))
    h.check('significant iff p <= alpha', core.b_not(core.b_xor(core.to_b(sig[l]), f_le(p, K(0.25)))))
    for a in (0.125, 0.25, 0.5, 0.75, 1.0):
      lo, hi = quantile(xs, Fraction(a) / 2), quantile(xs, 1 - Fraction(a) / 2)
      h.check(f'p < {a} iff excluded', core.b_not(core.b_xor(
          f_lt(p, K(a)), b_or(f_lt(N, lo), f_lt(hi, N)))))
    # tail fractions at the replicates themselves
    k = len(xs)
    for x in xs if k > 1 else ():
      below = fsum(f_ite(f_le(y, x), ONE, ZERO) for y in xs)
      above = fsum(f_ite(f_le(x, y), ONE, ZERO) for y in xs)
      t = f_div(f_sub(f_min(below, above), ONE), K(k - 1))
      h.check('tail fraction', b_or(b_not(f_eq(x, N)), f_eq(p, f_min(ONE, f_mul(K(2), t)))))


for a in ((1,), (2,), (3,), (5, (0, 0, 1, 3, 3)), (5, (2, -1, 2, 2, 5)), (5, (1, 1, 1, 1, 1)), (5, (4, 3, 2, 1, 0)), (9, (0, 1, 1, 1, 2, 2, 5, 6, 6)), (3, 1), (2, 1), (2, 2), (2, 0, 2)):
  SPEC.add(f'p-value{a}', (lambda a: lambda h: pvalues(h, *a))(a), cost=2)


# -- choice of the block length -------------------------------------------
U = (0.99, 0.45, 0.17, 0.85, 0.3, 0.6, 0.72)


def block_length(h, n, raw, resolution, variables=('v',), levels=None):
  """The recommended length of each linearised series is what is used."""
  st = make(h, n, variables, levels, weights=False, stats=('sa',))
  seen = []

  def fake(x):
    seen.append(cells(x))
    b = raw[(len(seen) - 1) % len(raw)]
    return pd.DataFrame({'stationary': [b], 'circular': [b * 7 + 100]})

  rolls = []

  def randint(low, high=None, size=None, dtype=int):
    rolls.append('i')
    return np.full(size, (5 * len(rolls) + 2) % n, dtype=dtype)

  def rand(*shape):
    rolls.append('u')
    return np.full(shape, U[len(rolls) % 7])

  with mock.patch.object(np.random, 'randint', randint), mock.patch.object(np.random, 'rand', rand), \
      mock.patch.object(bootstrap.arch.bootstrap, 'optimal_block_length', fake):
    r = bootstrap.StationaryBootstrap({'m': St('sa')}, st, experimental_unit_dim='unit', n_replicates=1,
                                      block_length_rounding_resolution=resolution)
  series = [(v, l) for v in variables for l in range(levels or 1)]
  h.true('one length per series', len(seen) == len(series), str(len(seen)))
  pos, drawn = 0, {}
  for k, (v, l) in enumerate(series):
    xs = cells(st.sum_weighted_statistics['sa'][v])
    x = [xs[(i, l) if levels else (i,)] for i in range(n)]
    m = f_div(fsum(x), K(n))
    h.true('series length', seen[k].shape == (n,), str(seen[k].shape))
    # any increasing affine image of the series has the same optimum
    h.eq('series', wrapcells([f_sub(s, seen[k][0]) for s in seen[k]]), wrapcells([f_sub(s, x[0]) for s in x]))
    b = max(1.0, raw[k % len(raw)])
    if resolution:
      b = 10 ** (round(np.log10(b) * resolution) / resolution)
    if b not in drawn:
      idx, c = [], pos
      c += 1
      idx.append((5 * c + 2) % n)
      for t in range(1, n):
        order = rolls[c:c + 2]
        new = (5 * (c + 1 + order.index('i')) + 2) % n
        c += 2
        u = U[(c - 1 + order.index('u')) % 7]
        idx.append(new if u < 1 / b else (idx[-1] + 1) % n)
      drawn[b], pos = idx, c
    got = r.resampled_values['m'][v]
    got = got.isel(level=l) if levels else got
    h.eq('replicate', got, wrapcells([f_div(fsum(x[i] for i in drawn[b]), K(n))]))


SPEC.add('block length', lambda h: block_length(h, 8, [0.4, 2.0, 5.03], 30.0, ('v', 'w', 'z')), cost=2)
SPEC.add('block length per level', lambda h: block_length(h, 8, [5.03, 1.3], 30.0, ('v',), 2), cost=2)
SPEC.add('block length unrounded', lambda h: block_length(h, 9, [2.3, 2.2], None, ('v', 'w')), cost=2)
SPEC.add('block length rounded', lambda h: block_length(h, 8, [2.3, 2.0], 3.0, ('v', 'w')), cost=2)


def too_short(h):
  for n in range(1, 8):
    st = make(h, n, stats=(f'sa',), weights=False) if n == 1 else aggregation.AggregationState(
        {'sa': {'v': xr.DataArray(np.arange(n) * 1.0, dims='unit', coords={'unit': np.arange(n)})}},
        {'sa': {'v': xr.DataArray(np.ones(n), dims='unit', coords={'unit': np.arange(n)})}})
    with h.raises(f'{n} units are too few', ValueError):
      bootstrap.StationaryBootstrap({'m': St('sa')}, st, experimental_unit_dim='unit', n_replicates=1)


SPEC.add('too few units for a block length', too_short)


def units(h):
  """Statistics over different units share no draw."""
  n = 3
  a, b = make(h, n, stats=('sa',)), make(h, n, stats=('sb',), coord=np.array(
      h.choice('coord', [(0, 2, 4), (0, 2, 5), (2, 0, 4)])))
  st = aggregation.AggregationState({**a.sum_weighted_statistics, **b.sum_weighted_statistics},
                                    {**a.sum_weights, **b.sum_weights})
  ok = list(b.sum_weights['sb']['v'].unit.values) == [0, 2, 4]
  ms = {k: f() for k, f in METRICS.items()}
  for nm, f in (('iid', lambda: bootstrap.IIDBootstrap(ms, st, experimental_unit_dim='unit', n_replicates=1)),
                ('stationary', lambda: bootstrap.StationaryBootstrap(ms, st, experimental_unit_dim='unit', n_replicates=1, mean_block_length=2.0)),
                ('cluster', lambda: bootstrap.ClusterBootstrap(ms, st, experimental_unit_coord='unit', n_replicates=1))):
    if not ok:
      with h.raises(f'{nm} rejected', ValueError):
        f()
  h.true('done', True)


SPEC.add('different units', units)


class Mix(mb.Metric):
  """Results are not named like the variables; a level is reduced inside."""

  @property
  def statistics(self):
    return {'x': St('sa'), 'y': St('sb')}

  def values_from_mean_statistics(self, statistic_values):
    x, y = statistic_values['x'], statistic_values['y']
    return {'sum': x['v'] + 2 * y['w'], 'prod': (x['w'] * y['v']).mean('level', skipna=False)}


def mixed(h, kind):
  n = 2
  st = make(h, n, ('v', 'w'), 2)
  with Draws(h).on() as d:
    if kind == 'iid':
      r = bootstrap.IIDBootstrap({'m': Mix()}, st, experimental_unit_dim='unit', n_replicates=1)
      mult = [count(d.counts[0, i]) for i in range(n)]
    else:
      r = bootstrap.StationaryBootstrap({'m': Mix()}, st, experimental_unit_dim='unit', n_replicates=1, mean_block_length=2.0)
      mult = multiplicity(draw_indices(h, d, n, 2.0, 0), 0, n)
  for src, m in ((r.point_estimates()['m'], [ONE] * n), (r.resampled_values['m'], mult)):
    t = lambda k, v, l: total(st, k, v, l, m)
    h.true('results', set(src) == {'sum', 'prod'})
    for l in range(2):
      g = src['sum'].isel(level=l)
      h.eq('sum', g, wrapcells(np.full(g.shape, f_add(t('sa', 'v', l), f_mul(K(2), t('sb', 'w', l))), dtype=object)))
    e = f_div(fsum(f_mul(t('sa', 'w', l), t('sb', 'v', l)) for l in range(2)), K(2))
    h.eq('product', src['prod'], wrapcells(np.full(src['prod'].shape, e, dtype=object)))


for k in ('iid', 'stationary'):
  SPEC.add(f'mixed variables {k}', (lambda k: lambda h: mixed(h, k))(k), cost=3)


def slices(h, dim, labelled):
  """The helper behind the per-index bootstrap: slice by slice is all at once."""
  dims = (dim,) if isinstance(dim, str) else tuple(dim)
  co = {'p': [3, 1], 'q': ['a', 'b', 'c']}
  with_coords = lambda a: a.assign_coords({d: co[d] for d in a.dims if d in co and labelled})
  x = with_coords(xr.DataArray(h.floats('x', (2, 3), nan=True), dims=('p', 'q')))
  y = with_coords(xr.DataArray(h.floats('y', (2, 2)), dims=('n', 'p')))
  z = with_coords(xr.DataArray(h.floats('z', (3,)), dims=('q',)))
  w = xr.DataArray(h.floats('w', ()), dims=())
  seen = []

  def f(s, t, u):
    seen.append(tuple(s['x'].sizes[d] for d in dims))
    h.true('one slice', all(v.sizes[d] == 1 for v in (s['x'], s['y'], t, u) for d in dims if d in v.dims))
    h.true('other dimensions whole', all(
        v.sizes[d] == n for v in (s['x'], s['y'], t, u) for d, n in (('p', 2), ('q', 3), ('n', 2))
        if d in v.dims and d not in dims))
    return {'sum': s['x'] + t * 2, 'mix': {'in': (s['y'] * s['x']).transpose('q', 'p', 'n') + u}}

  args = ({'x': x, 'y': y}, z, w)
  got = utils.apply_to_slices(f, *args, dim=dim)
  px = cells(x)
  h.true('calls', len(seen) == int(np.prod([{'p': 2, 'q': 3}[d] for d in dims])), str(len(seen)))
  lab = lambda a, d: list(a[d].values)
  s, m = got['sum'], got['mix']['in']
  h.true('dims', set(s.dims) == {'p', 'q'} and set(m.dims) == {'p', 'q', 'n'}, f'{s.dims} {m.dims}')
  for a in (s, m):
    for d in ('p', 'q'):
      if d in dims or labelled:
        want = co[d] if labelled else list(range({'p': 2, 'q': 3}[d]))
        h.true(f'labels {d}', sorted(lab(a, d)) == sorted(want), str(lab(a, d)))
  idx = lambda a, d, i: (lab(a, d).index(co[d][i] if labelled else i) if d in a.coords else i)
  cs, cm = cells(s.transpose('p', 'q')), cells(m.transpose('p', 'q', 'n'))
  cy, cz, cw = cells(y), cells(z), cells(w).ravel()[0]
  gs, es, gm, em = [], [], [], []
  for i in range(2):
    for j in range(3):
      gs.append(cs[idx(s, 'p', i), idx(s, 'q', j)])
      es.append(f_add(px[i, j], f_mul(K(2), cz[j])))
      for k in range(2):
        gm.append(cm[idx(m, 'p', i), idx(m, 'q', j), k])
        em.append(f_add(f_mul(cy[k, i], px[i, j]), cw))
  arr = lambda c: wrapcells(np.array(c + [None], dtype=object)[:-1])
  h.eq('sum', arr(gs), arr(es))
  h.eq('mix', arr(gm), arr(em))


for nm, d in (('one', 'p'), ('list', ['q']), ('two', ('p', 'q')), ('two reversed', ['q', 'p'])):
  for lab in (True, False):
    SPEC.add(f'slice by slice[{nm}{"" if lab else " unlabelled"}]', (lambda d, lab: lambda h: slices(h, d, lab))(d, lab))


def bad_slices(h):
  a = xr.DataArray(h.floats('a', (2,)), dims='p')
  b = xr.DataArray(h.floats('b', (3,)), dims='p')
  with h.raises('different sizes', ValueError):
    utils.apply_to_slices(lambda s, t: s + t, a, b, dim='p')
  with h.raises('no such dimension', ValueError):
    utils.apply_to_slices(lambda s: s, a, dim='q')
  with h.raises('one of two dimensions missing', ValueError):
    utils.apply_to_slices(lambda s: s, a, dim=['p', 'q'])


SPEC.add('slices of different sizes', bad_slices)
