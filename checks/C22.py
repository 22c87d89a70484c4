"""C22: t-test intervals, p-values and standard errors (statistical_inference/t_test.py)."""
from checks.common import *
import math
from symx import jaxsym, stats
from checks.C25 import St, make_state, means, names, per_unit
from weatherbenchX import aggregation
from weatherbenchX.metrics import deterministic as det
from weatherbenchX.statistical_inference import autodiff, t_test
import scipy.stats

jaxsym.install(autodiff)
stats.install()
REAL_T = scipy.stats.t if not isinstance(scipy.stats.t, stats.TProxy) else scipy.stats.t._real

SPEC = Spec(
    'C22',
    functions=[
        'statistical_inference.t_test.IID / GeerAR2Corrected / LazarusHACEWC',
        'statistical_inference.base.StatisticalInferenceMethod.significance_tests',
        'statistical_inference.autodiff.per_unit_values_linearized_around_mean_statistics',
        'statistical_inference.utils.get_and_check_experimental_unit_coord',
    ],
    bounds='1-5 units (6-9 for the number of degrees of freedom), 1-2 variables, '
           '1-2 levels; per-unit values, level alpha and null value symbolic reals',
    assumptions=[
        "Student's t distribution function is continuous, strictly increasing and "
        'symmetric, its inverse is ppf (uninterpreted otherwise)',
        'the cosines of the cosine transform are rounded to doubles',
        'floating point rounding is outside the claim',
    ],
    stubs=['scipy.stats.t (uninterpreted, axioms above), scipy.fft.dct (exact '
           'linear map), jax tracing (see C25)'],
)

M = {'IID': t_test.IID, 'Geer': t_test.GeerAR2Corrected, 'Lazarus': t_test.LazarusHACEWC}
K = lambda x: lift_f(Fraction(x))


def state(h, n, variables=('v',), levels=None, coord=None, name='s', nan=False, dim='unit'):
  """Per-unit values with unit weights."""
  sws, sw = {'s': {}}, {'s': {}}
  for v in variables:
    shp = [n] + ([levels] if levels else [])
    x = h.floats(name + v, shp, nan=True, lo=-8, hi=8) if nan else per_unit(
        h, name + v, shp, 0, -8, 8, 8)
    dims = [dim] + (['level'] if levels else [])
    co = {dim: np.arange(n) if coord is None else coord}
    if levels:
      co['level'] = np.arange(levels) * 10
    sws['s'][v] = xr.DataArray(x, dims=dims, coords=co)
    sw['s'][v] = xr.ones_like(sws['s'][v], dtype=float) if not h.sym else xr.DataArray(
        np.ones(shp), dims=dims, coords=co)
  return aggregation.AggregationState(sws, sw)


def method(cls, st, **kw):
  return M[cls]({'m': St('s')}, st, experimental_unit_dim='unit', **kw)


def get(r, v='v'):
  return r['m'][v]


def one(da):
  c = cells(da)
  return lift_f(c.ravel()[0])


def f_abs(x):
  return f_ite(f_lt(x, ZERO), f_sub(ZERO, x), x)


def canon(h):
  if h.sym and core.ctx() is not None:
    core.ctx().canon_sqrt = True


def coherent(h, cls, n, **kw):
  """Interval, p-value and significance of one metric."""
  canon(h)
  r = method(cls, state(h, n), **kw)
  a1 = h.floats('a1', (), lo=Fraction(1, 100), hi=Fraction(99, 100))
  null = h.floats('null', (), lo=-20, hi=20)
  pe, se = one(get(r.point_estimates())), one(get(r.standard_error_estimates()))
  lo, hi = (one(get(x)) for x in r.confidence_intervals(a1))
  p = one(get(r.p_values(null)))
  sig = cells(get(r.significance_tests(null, a1))).ravel()[0]
  a, nl = lift_f(cells(a1)[()]), lift_f(cells(null)[()])
  h.check('standard error is not negative', f_le(ZERO, se))
  h.eq('centred on the point estimate', wrapcells([f_sub(pe, lo)]), wrapcells([f_sub(hi, pe)]))
  h.check('contains the point estimate', b_and(f_le(lo, pe), f_le(pe, hi)))
  h.check('p in [0,1]', b_and(f_le(ZERO, p), f_le(p, ONE)))
  h.check('excluded iff p < alpha', core.b_not(core.b_xor(
      b_or(f_lt(nl, lo), f_lt(hi, nl)), f_lt(p, a))))
  h.check('significant iff p <= alpha', core.b_not(core.b_xor(core.to_b(sig), f_le(p, a))))
  h.check('p is 1 at the point estimate', b_or(b_not(f_eq(nl, pe)), f_eq(p, ONE)))


def widens(h, cls, n, **kw):
  canon(h)
  r = method(cls, state(h, n), **kw)
  a1 = h.floats('a1', (), lo=Fraction(1, 100), hi=Fraction(99, 100))
  a2 = h.floats('a2', (), lo=Fraction(1, 100), hi=Fraction(99, 100))
  lo1, hi1 = (one(get(x)) for x in r.confidence_intervals(a1))
  lo2, hi2 = (one(get(x)) for x in r.confidence_intervals(a2))
  x, y = (lift_f(cells(q)[()]) for q in (a1, a2))
  se = one(get(r.standard_error_estimates()))
  h.check('a higher level gives a wider interval', b_or(
      b_not(f_lt(x, y)),
      b_and(f_lt(lo1, lo2), f_lt(hi2, hi1)),
      b_and(f_eq(se, ZERO), f_eq(lo1, lo2), f_eq(hi1, hi2))))


for cls, n in (('IID', 2), ('IID', 3), ('Geer', 3), ('Lazarus', 2), ('Lazarus', 3)):
  SPEC.add(f'coherent[{cls} {n}]', (lambda c, n: lambda h: coherent(h, c, n))(cls, n), cost=3)
  SPEC.add(f'widens[{cls} {n}]', (lambda c, n: lambda h: widens(h, c, n))(cls, n), cost=3)


def t_cdf(df, x):
  return stats._cdf1(df, REAL_T(df=df), x)


def unit_cells(st, s='s', v='v', dims=()):
  x = st.sum_weighted_statistics[s][v].transpose('unit', *dims)
  return cells(x)


def lazarus_df(n, v_0=0.4):
  return min(max(1, math.floor(v_0 * n ** (2 / 3))), n - 1)


def expected_se(cls, d, v_0=0.4):
  """(standard error, degrees of freedom) of the deviations of one series."""
  n = len(d)
  if cls == 'Lazarus':
    v = lazarus_df(n, v_0)
    w = stats.dct_matrix(n, 'ortho')
    b = [fsum(f_mul(F(w[j, t]), d[t]) for t in range(n)) for j in range(1, v + 1)]
    return core.f_sqrt(f_div(f_div(fsum(f_mul(x, x) for x in b), K(v)), K(n))), v
  var = f_div(fsum(f_mul(x, x) for x in d), K(n - 1))
  se = core.f_sqrt(f_div(var, K(n)))
  if cls == 'IID':
    return se, n - 1
  r = {}
  flat = f_eq(var, ZERO)
  for lag in (1, 2):
    c = f_div(fsum(f_mul(d[i], d[i + lag]) for i in range(n - lag)), K(n - lag)) if n > lag else NAN
    r[lag] = f_ite(flat, ZERO, f_div(c, var))
  q = f_sub(ONE, f_mul(r[1], r[1]))
  p1 = f_div(f_mul(r[1], f_sub(ONE, r[2])), q)
  p2 = f_div(f_sub(r[2], f_mul(r[1], r[1])), q)
  u = f_sub(f_sub(ONE, p1), p2)
  k2 = f_div(f_sub(f_sub(ONE, f_mul(r[1], p1)), f_mul(r[2], p2)), f_mul(u, u))
  return f_mul(se, core.f_sqrt(k2)), n - 1


def formula(h, cls, n, levels=None, variables=('v',), alpha=0.05, full=True, **kw):
  """Standard error, interval and p-value are the stated functions."""
  st = state(h, n, variables, levels)
  r = method(cls, st, **kw)
  null = Fraction(3, 2)
  se, pe, (lo, hi), p = (r.standard_error_estimates(), r.point_estimates(),
                         r.confidence_intervals(alpha), r.p_values(float(null)))
  h.true('variables', all(set(x['m']) == set(variables) for x in (se, pe, lo, hi, p)))
  ld = ('level',) if levels else ()
  for v in variables:
    for nm, x in (('se', se), ('pe', pe), ('lo', lo), ('hi', hi), ('p', p)):
      h.true(f'{nm} dims of {v}', set(get(x, v).dims) == set(ld) and (
          not levels or list(get(x, v).level.values) == [0, 10][:levels]), str(get(x, v).dims))
    xs = unit_cells(st, v=v, dims=ld)
    for l in range(levels or 1):
      x = [xs[(i, l) if levels else (i,)] for i in range(n)]
      m = f_div(fsum(x), K(n))
      s, df = expected_se(cls, [f_sub(a, m) for a in x], kw.get('v_0', 0.4))
      at = lambda t: wrapcells([cells(get(t, v)).ravel()[l]])
      h.eq('point estimate', at(pe), wrapcells([m]))
      h.eq('standard error', at(se), wrapcells([s]))
      if not full:
        continue
      q = F(Fraction(float(-REAL_T.ppf(alpha / 2, df))))
      S = cells(get(se, v)).ravel()[l]   # the standard error shown above
      h.eq('lower', at(lo), wrapcells([f_sub(m, f_mul(S, q))]))
      h.eq('upper', at(hi), wrapcells([f_add(m, f_mul(S, q))]))
      d = f_sub(m, F(null))
      z = f_abs(f_div(d, S))
      e = f_mul(K(2), f_sub(ONE, t_cdf(df, z)))
      h.eq('p-value', at(p), wrapcells([f_ite(b_and(f_eq(d, ZERO), f_eq(S, ZERO)), ONE, e)]))


for cls, n, kw in (('IID', 2, {}), ('IID', 3, dict(alpha=0.2)), ('IID', 3, dict(levels=2, variables=('v', 'w'))),
                   ('IID', 5, {}), ('Geer', 3, {}), ('Geer', 4, dict(full=False)),
                   ('Lazarus', 2, {}), ('Lazarus', 3, {}), ('Lazarus', 3, dict(v_0=10.0)), ('Lazarus', 4, dict(v_0=1.0)),
                   ('Lazarus', 5, dict(v_0=0.7)), ('Lazarus', 6, dict(alpha=0.1)), ('Lazarus', 8, dict(v_0=0.5)),
                   ('Lazarus', 3, dict(levels=2, variables=('v', 'w')))):
  SPEC.add(f'formula[{cls} {n} {kw}]', (lambda c, n, k: lambda h: formula(h, c, n, **k))(cls, n, kw), cost=3)


def weighted(h, cls, metric, n):
  """Weighted and nonlinear metrics: the linearised effects of the units."""
  st = make_state(h, {'m': metric}, n, lo=1, units=np.arange(n))
  r = M[cls]({'m': metric}, st, experimental_unit_dim='unit')
  (u,) = names(metric).values()
  mean, D = means(st, u, 'v', ('level',))
  m = mean[(0,)]
  if isinstance(metric, det.RMSE):
    root = core.f_sqrt(m)
    val, D = root, [f_div(D[(a, 0)], f_mul(K(2), root)) for a in range(n)]
  else:
    val, D = m, [D[(a, 0)] for a in range(n)]
  s, df = expected_se(cls, D)
  h.eq('point estimate', get(r.point_estimates()), wrapcells([val]))
  h.eq('standard error', get(r.standard_error_estimates()), wrapcells([s]))


SPEC.add('weighted mean', lambda h: weighted(h, 'IID', det.MAE(), 2), cost=3)
SPEC.add('weighted mean of 3', lambda h: weighted(h, 'IID', det.MAE(), 3), cost=3)
SPEC.add('RMSE', lambda h: weighted(h, 'IID', det.RMSE(), 2), cost=3)
SPEC.add('weighted mean Lazarus', lambda h: weighted(h, 'Lazarus', det.MAE(), 3), cost=3)


def constant(h, cls, n):
  """All units equal: a zero error, p-values of 0 or 1."""
  x = h.floats('x', (), lo=-8, hi=8)
  null = h.floats('null', (), lo=-8, hi=8)
  st = state(h, n)
  st.sum_weighted_statistics['s']['v'] = xr.DataArray(
      np.broadcast_to(x, (n,)) if not h.sym else np.stack([x] * n), dims=['unit'], coords={'unit': np.arange(n)})
  r = method(cls, st)
  X, N = lift_f(cells(x)[()]), lift_f(cells(null)[()])
  h.eq('standard error', get(r.standard_error_estimates()), wrapcells(ZERO))
  for t in r.confidence_intervals():
    h.eq('interval', get(t), wrapcells(X))
  h.eq('p-value', get(r.p_values(null)), wrapcells(f_ite(f_eq(X, N), ONE, ZERO)))
  s = cells(get(r.significance_tests(null))).ravel()[0]
  h.check('significant iff different', core.b_not(core.b_xor(core.to_b(s), b_not(f_eq(X, N)))))


for cls, n in (('IID', 2), ('IID', 3), ('Geer', 2), ('Geer', 3), ('Geer', 4), ('Lazarus', 2), ('Lazarus', 4)):
  SPEC.add(f'constant[{cls} {n}]', (lambda c, n: lambda h: constant(h, c, n))(cls, n))


def undefined(h, cls, n):
  """Too few units: no number at all but the point estimate."""
  st = state(h, n)
  try:
    r = method(cls, st)
  except (ValueError, IndexError):
    # A single unit has no time step: it may be rejected instead.
    h.true('rejected', n == 1 and cls != 'IID')
    return
  x = unit_cells(st)
  h.eq('point estimate', get(r.point_estimates()), wrapcells(f_div(fsum(x), K(n))))
  se = one(get(r.standard_error_estimates()))
  same = b_and(*[f_eq(q, x[0]) for q in x]) if n > 1 else False
  out = [se] + [one(get(t)) for t in r.confidence_intervals()] + [one(get(r.p_values(0.5)))]
  for nm, v in zip(('standard error', 'lower', 'upper', 'p'), out):
    h.check(nm, b_or(same, v.nan))
  s = cells(get(r.significance_tests(0.5))).ravel()[0]
  h.check('not significant', b_or(same, b_not(core.to_b(s))))


for cls, n in (('IID', 1), ('Geer', 1), ('Geer', 2), ('Lazarus', 1)):
  SPEC.add(f'too short[{cls} {n}]', (lambda c, n: lambda h: undefined(h, c, n))(cls, n))


def missing(h, cls, n):
  """A missing unit makes every result of its series missing."""
  st = state(h, n, levels=2, nan=True)
  r = method(cls, st)
  x = unit_cells(st, dims=('level',))
  outs = dict(pe=r.point_estimates(), se=r.standard_error_estimates(), p=r.p_values(0.5))
  outs['lo'], outs['hi'] = r.confidence_intervals()
  sig = cells(get(r.significance_tests(0.5)))
  for l in range(2):
    bad = b_or(*[x[i, l].nan for i in range(n)])
    for k, t in outs.items():
      c = cells(get(t))[l]
      h.check(f'{k} of an incomplete series', b_or(b_not(bad), c.nan))
      if cls != 'Geer':
        h.check(f'{k} of a complete series', b_or(bad, b_not(c.nan)))
    h.check('not significant', b_or(b_not(bad), b_not(core.to_b(sig[l]))))


for cls, n in (('IID', 2), ('IID', 3), ('Geer', 3), ('Lazarus', 3)):
  SPEC.add(f'missing[{cls} {n}]', (lambda c, n: lambda h: missing(h, c, n))(cls, n), cost=2)


def steps(h, cls, kind, n):
  """Units at unequal time steps are rejected where the order matters."""
  gaps = [h.pick_int(f'g{i}', 1, 2) for i in range(n - 1)]
  pos = np.concatenate([[0], np.cumsum(gaps)])
  if h.choice('descending', [False, True]):
    pos = pos[::-1].copy()
  coord = {'int': pos, 'float': pos * 0.25,
           'datetime': np.datetime64('2020-02-27', 'ns') + pos * np.timedelta64(12, 'h'),
           'timedelta': pos * np.timedelta64(6, 'h').astype('m8[ns]')}[kind]
  st = state(h, n, coord=coord)
  if cls != 'IID' and len(set(gaps)) > 1:
    with h.raises('rejected', ValueError):
      method(cls, st)
    return
  r = method(cls, st)
  x = unit_cells(st)
  h.eq('point estimate', get(r.point_estimates()), wrapcells(f_div(fsum(x), K(n))))
  if cls != 'Geer':
    m = f_div(fsum(x), K(n))
    h.eq('standard error', get(r.standard_error_estimates()),
         wrapcells(expected_se(cls, [f_sub(a, m) for a in x])[0]))


for cls in M:
  for kind in ('int', 'float', 'datetime', 'timedelta'):
    SPEC.add(f'steps[{cls} {kind}]', (lambda c, k: lambda h: steps(h, c, k, 3 if c == 'Lazarus' else 4 if k != 'float' else 3))(cls, kind))


def mismatch(h, cls):
  """Statistics over different units cannot be combined."""
  n = 3
  a, b = state(h, n, name='a'), state(h, n, name='b', coord=np.array(
      h.choice('coord', [(0, 1, 2), (0, 1, 3), (0, 2, 1), (1, 2, 3)])))
  both = aggregation.AggregationState(
      {'s': a.sum_weighted_statistics['s'], 'q': b.sum_weighted_statistics['s']},
      {'s': a.sum_weights['s'], 'q': b.sum_weights['s']})
  mk = lambda: M[cls]({'m': St('s'), 'k': St('q')}, both, experimental_unit_dim='unit')
  if list(b.sum_weights['s']['v'].unit.values) != [0, 1, 2]:
    with h.raises('rejected', ValueError):
      mk()
    return
  r = mk()
  for m, s in (('m', a), ('k', b)):
    h.eq('point estimate of ' + m, r.point_estimates()[m]['v'], wrapcells(f_div(fsum(unit_cells(s)), K(n))))
    x = unit_cells(s)
    mean = f_div(fsum(x), K(n))
    h.eq('standard error of ' + m, r.standard_error_estimates()[m]['v'],
         wrapcells(expected_se(cls, [f_sub(q, mean) for q in x])[0]))


for cls in M:
  SPEC.add(f'two metrics[{cls}]', (lambda c: lambda h: mismatch(h, c))(cls), cost=2)


def no_units(h):
  """Without the experimental units there is nothing to infer from."""
  st = state(h, 3, dim='time')
  for cls in M:
    with h.raises(f'{cls} without the dimension', ValueError):
      method(cls, st)
  st = state(h, 3, name='b').map(lambda x: x.drop_vars('unit'))
  for cls in M:      # a dimension without labels counts the units
    h.eq('point estimate', get(method(cls, st).point_estimates()),
         wrapcells(f_div(fsum(unit_cells(st)), K(3))))


SPEC.add('no units', no_units)


def shift_scale(h, cls, n, **kw):
  """Adding c moves the estimate only; multiplying by a scales everything."""
  st = state(h, n)
  a, c = h.floats('a', (), lo=-4, hi=4), h.floats('c', (), lo=-4, hi=4)
  A, C = lift_f(cells(a)[()]), lift_f(cells(c)[()])
  st2 = aggregation.AggregationState(
      {'s': {'v': st.sum_weighted_statistics['s']['v'] * a + c}}, st.sum_weights)
  r, r2 = method(cls, st, **kw), method(cls, st2, **kw)
  pe, se = (one(get(x)) for x in (r.point_estimates(), r.standard_error_estimates()))
  pe2, se2 = (one(get(x)) for x in (r2.point_estimates(), r2.standard_error_estimates()))
  h.eq('point estimate', wrapcells(pe2), wrapcells(f_add(f_mul(A, pe), C)))
  h.eq('squared standard error', wrapcells(f_mul(se2, se2)), wrapcells(f_mul(f_mul(A, A), f_mul(se, se))),
       unless=b_or(f_eq(A, ZERO), se.nan) if cls == 'Geer' else None)


for cls, n in (('IID', 2), ('IID', 4), ('Lazarus', 4)) + ((('Geer', 3),) if THOROUGH else ()):
  SPEC.add(f'shift and scale[{cls} {n}]', (lambda c, n: lambda h: shift_scale(h, c, n))(cls, n), cost=3)
