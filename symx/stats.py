"""Stand-ins for scipy.stats.t and scipy.fft.dct on symbolic arrays.

Student's t: the distribution function of each number of degrees of freedom is
an uninterpreted function that is known to be continuous, strictly increasing,
symmetric about 0 with values in (0, 1); ppf is its inverse.  dct: the exact
linear map with the cosines as rational constants.
"""
from fractions import Fraction
import math
import numpy as np
import scipy.fft
import scipy.stats
import z3
from . import arr, core, patches
from .arr import SymArray, lift
from .core import F, NAN, ONE, ZERO, Unsupported, b_and, b_not, b_or, f_ite, r_z

_HALF = Fraction(1, 2)


def _apps(df):
  return core.ctx().t_apps.setdefault(df, [])


def _relate(df, x, p, when):
  """Axioms linking a new pair p = cdf(x) (under `when`) with earlier ones."""
  c = core.ctx()
  x, p = r_z(x), r_z(p)
  ax = [p > 0, p < 1, (x < 0) == (p < r_z(_HALF)), (x > 0) == (p > r_z(_HALF))]
  for y, q in _apps(df):
    ax += [(x < y) == (p < q), (x > y) == (p > q),
           (x < -y) == (p < 1 - q), (x > -y) == (p > 1 - q)]
  for a in ax:
    c.defs.append(a if when is True else z3.Implies(core.b_z(when), a))
  _apps(df).append((x, p))


def _cdf1(df, real, a):
  if a.const:
    v = core.f_float(a)
    return core.lift_f(float(real.cdf(v)))
  fin = b_and(b_not(a.nan), b_not(a.pinf), b_not(a.ninf))
  c = core.ctx()
  key = ('tcdf', df, a.v.get_id() if not core.is_k(a.v) else a.v)
  if key in c.uf_apps:
    p = c.uf_apps[key][1]
  else:
    p = z3.Real(c.fresh('tcdf'))
    _relate(df, a.v, p, True)
    c.uf_apps[key] = (a.v, p)
  r = f_ite(a.pinf, ONE, f_ite(a.ninf, ZERO, F(p)))
  return F(r.v, b_or(a.nan, r.nan))


def _ppf1(df, real, a):
  if a.const:
    return core.lift_f(float(real.ppf(core.f_float(a))))
  if not a.noinf:
    raise Unsupported('ppf of a possibly infinite probability')
  ok = b_and(core.r_lt(Fraction(0), a.v), core.r_lt(a.v, Fraction(1)))
  lo, hi = core.r_eq(a.v, Fraction(0)), core.r_eq(a.v, Fraction(1))
  c = core.ctx()
  key = ('tppf', df, a.v.get_id())
  if key in c.uf_apps:
    q = c.uf_apps[key][1]
  else:
    q = z3.Real(c.fresh('tppf'))
    _relate(df, q, a.v, ok)
    c.uf_apps[key] = (a.v, q)
  nan = b_or(a.nan, b_not(b_or(ok, lo, hi)))
  return F(q, nan, b_and(b_not(nan), hi), b_and(b_not(nan), lo))


def _map(fn, x):
  x = lift(x)
  out = np.empty(x.shape, dtype=object)
  for i in np.ndindex(x.shape):
    out[i] = fn(core.lift_f(x.data[i]))
  return SymArray(out, np.dtype('f8'))


def _sym(*xs):
  return any(isinstance(x, (SymArray, F)) for x in xs)


class FrozenT:
  def __init__(self, real, df):
    self.real, self.df = real, df

  def _bad(self):
    return not self.df > 0

  def cdf(self, x):
    if not _sym(x):
      return self.real.cdf(x)
    if self._bad():
      return _map(lambda a: NAN, x)
    return _map(lambda a: _cdf1(self.df, self.real, a), x)

  def sf(self, x):
    return 1 - self.cdf(x) if _sym(x) else self.real.sf(x)

  def ppf(self, q):
    if not _sym(q):
      if self._bad():
        return self.real.ppf(q)
      return _const_ppf(self.df, self.real, q)
    if self._bad():
      return _map(lambda a: NAN, q)
    return _map(lambda a: _ppf1(self.df, self.real, a), q)

  def isf(self, q):
    return -self.ppf(q) if _sym(q) else self.real.isf(q)

  def interval(self, c):
    return self.ppf((1 - c) / 2), self.ppf((1 + c) / 2)

  def __getattr__(self, name):
    return getattr(self.real, name)


def _const_ppf(df, real, q):
  v = real.ppf(q)
  if np.ndim(v) == 0 and np.isfinite(v) and core.ctx() is not None:
    _relate(df, Fraction(float(v)), Fraction(float(q)), True)
  return v


class TProxy:
  def __init__(self, real):
    self._real = real

  def __call__(self, df=None, *a, **k):
    if a or k:
      raise Unsupported('scipy.stats.t with location or scale')
    return FrozenT(self._real(df=df), df)

  def cdf(self, x, df):
    return self(df).cdf(x)

  def sf(self, x, df):
    return self(df).sf(x)

  def ppf(self, q, df):
    return self(df).ppf(q)

  def isf(self, q, df):
    return self(df).isf(q)

  def __getattr__(self, name):
    return getattr(self._real, name)


def dct_matrix(n, norm):
  m = np.empty((n, n), dtype=object)
  for k in range(n):
    s = 2.0
    if norm == 'ortho':
      s *= math.sqrt(1 / (4 * n)) if k == 0 else math.sqrt(1 / (2 * n))
    for i in range(n):
      m[k, i] = Fraction(s * math.cos(math.pi * k * (2 * i + 1) / (2 * n)))
  return m


_dct = scipy.fft.dct


def dct(x, type=2, n=None, axis=-1, norm=None, *a, **k):  # pylint: disable=redefined-builtin
  if not isinstance(x, SymArray):
    return _dct(x, type, n, axis, norm, *a, **k)
  if type != 2 or n is not None or norm not in (None, 'ortho', 'backward'):
    raise Unsupported('dct variant')
  y = np.moveaxis(x, axis, -1)
  m = dct_matrix(y.shape[-1], norm)
  out = np.empty(y.shape, dtype=object)
  for i in np.ndindex(y.shape):
    acc = ZERO
    for j in range(y.shape[-1]):
      acc = core.f_add(acc, core.f_mul(F(m[i[-1], j]), y.data[i[:-1] + (j,)]))
    out[i] = acc
  return np.moveaxis(SymArray(out, x.dtype), -1, axis)


def install():
  patches.patch(scipy.stats, 't', TProxy(scipy.stats.t))
  patches.patch(scipy.fft, 'dct', dct)
