"""Symbolic times as plain Python scalars, for code that goes through pandas.

A `T` is a datetime or timedelta whose value (whole or fractional minutes
since the epoch) is a symbolic F.  Object columns of T run through the real
pandas code; comparisons fork.
"""
import datetime
import re
import numpy as np
import pandas as pd
from . import core
from .core import (B, F, b_and, f_add, f_eq, f_le, f_lt, f_neg, f_sub, f_abs,
                   f_mul, f_div, lift_f)

NS = 60 * 10**9
TD = (np.timedelta64, pd.Timedelta, datetime.timedelta)
DT = (np.datetime64, pd.Timestamp, datetime.datetime)


def as_t(x):
  """T of a concrete or symbolic time; None when x is not a time."""
  from fractions import Fraction
  if isinstance(x, T):
    return x
  if isinstance(x, DT) and not isinstance(x, TD):
    n = int(np.datetime64(x, 'ns').astype('i8'))
    return T(lift_f(Fraction(n, NS)), 'M')
  if isinstance(x, TD):
    n = int(np.timedelta64(x).astype('m8[ns]').astype('i8'))
    return T(lift_f(Fraction(n, NS)), 'm')
  return None


def _each(fn, a, b):
  if isinstance(b, np.ndarray):
    out = np.empty(b.shape, dtype=object)
    for i in np.ndindex(b.shape):
      out[i] = fn(a, b[i])
    return out
  return None


class T:
  __slots__ = ('v', 'k')
  __array_ufunc__ = None

  def __init__(self, v, k):
    self.v, self.k = v, k

  def __repr__(self):
    return f'T{self.k}({self.v})'

  def _arith(self, o, f, kinds):
    if isinstance(o, np.ndarray):
      return _each(lambda a, b: a._arith(b, f, kinds), self, o)
    t = as_t(o)
    if t is None or (self.k, t.k) not in kinds:
      return NotImplemented
    return T(f(self.v, t.v), kinds[self.k, t.k])

  ADD = {('M', 'm'): 'M', ('m', 'M'): 'M', ('m', 'm'): 'm'}
  SUB = {('M', 'm'): 'M', ('M', 'M'): 'm', ('m', 'm'): 'm'}
  RSUB = {('m', 'M'): 'M', ('M', 'M'): 'm', ('m', 'm'): 'm'}

  def __add__(self, o): return self._arith(o, f_add, T.ADD)
  __radd__ = __add__
  def __sub__(self, o): return self._arith(o, f_sub, T.SUB)
  def __rsub__(self, o):
    return self._arith(o, lambda a, b: f_sub(b, a), T.RSUB)

  def __mul__(self, o):
    return T(f_mul(self.v, lift_f(o)), self.k) if self.k == 'm' else NotImplemented
  __rmul__ = __mul__

  def __truediv__(self, o):
    if isinstance(o, T) or isinstance(o, TD):
      return f_div(self.v, as_t(o).v)
    return T(f_div(self.v, lift_f(o)), self.k)

  def __neg__(self): return T(f_neg(self.v), self.k)
  def __pos__(self): return self
  def __abs__(self): return T(f_abs(self.v), self.k)

  def _cmp(self, o, f):
    if isinstance(o, np.ndarray):
      return _each(lambda a, b: a._cmp(b, f), self, o)
    t = as_t(o)
    if t is None or t.k != self.k:
      return NotImplemented
    return bool(B(f(self.v, t.v)))

  def __lt__(self, o): return self._cmp(o, f_lt)
  def __le__(self, o): return self._cmp(o, f_le)
  def __gt__(self, o): return self._cmp(o, lambda a, b: f_lt(b, a))
  def __ge__(self, o): return self._cmp(o, lambda a, b: f_le(b, a))
  def __eq__(self, o): return self._cmp(o, f_eq)
  def __ne__(self, o):
    r = self.__eq__(o)
    return r if r is NotImplemented else (
        not r if isinstance(r, bool) else ~r.astype(bool))
  def __hash__(self): raise core.Unsupported('hash of a symbolic time')

  def cond(self, op, o):
    """The comparison as an unforked condition."""
    t = as_t(o)
    return {'<': lambda: f_lt(self.v, t.v), '<=': lambda: f_le(self.v, t.v),
            '>': lambda: f_lt(t.v, self.v), '>=': lambda: f_le(t.v, self.v),
            '=': lambda: f_eq(self.v, t.v), '==': lambda: f_eq(self.v, t.v),
            '!=': lambda: core.b_not(f_eq(self.v, t.v))}[op]()

  def floor_to(self, unit, lo, hi):
    """Concrete datetime64[unit] containing this time (forks)."""
    a, b = np.datetime64(lo, unit), np.datetime64(hi, unit)
    while a <= b:
      if bool(B(b_and(self.cond('>=', a), self.cond('<', a + 1)))):
        return a
      a = a + 1
    raise core.Unsupported('time outside the declared horizon')

  def astype(self, dt):
    dt = np.dtype(dt)
    u = np.datetime_data(dt)[0]
    if u in ('ns', 'us', 'ms', 's', 'm'):
      return self
    return self.floor_to(u, *T.horizon)

  def to_numpy(self): return self
  to_datetime64 = to_timedelta64 = to_numpy


T.horizon = ('1990', '2040')


class NumpyProxy:
  """Stands for a module's `np`: datetime64/timedelta64 accept T."""

  def __init__(self):
    def mk(real, k):
      class Meta(type):
        def __instancecheck__(cls, x):
          return isinstance(x, real) or isinstance(x, T) and x.k == k
        def __or__(cls, o): return real | o
        def __ror__(cls, o): return o | real
      class Sub(metaclass=Meta):
        def __new__(cls, x, unit=None):
          if isinstance(x, T):
            return x if unit is None else x.astype(
                ('datetime64' if k == 'M' else 'timedelta64') + f'[{unit}]')
          return real(x) if unit is None else real(x, unit)
      return Sub
    self.datetime64 = mk(np.datetime64, 'M')
    self.timedelta64 = mk(np.timedelta64, 'm')

  def __getattr__(self, n):
    return getattr(np, n)


class PandasProxy:
  """Stands for a module's `pd`: Timestamp/Timedelta accept T."""

  def __init__(self, **over):
    self.__dict__.update(over)

  def Timestamp(self, x, *a, **k):
    return x if isinstance(x, T) else pd.Timestamp(x, *a, **k)

  Timedelta = lambda self, x, *a, **k: (
      x if isinstance(x, T) else pd.Timedelta(x, *a, **k))

  def to_datetime(self, x, *a, **k):
    return x if isinstance(x, T) else pd.to_datetime(x, *a, **k)

  def __getattr__(self, n):
    return getattr(pd, n)
