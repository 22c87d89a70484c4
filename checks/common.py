"""Shared helpers for harnesses."""
import itertools
import os
import numpy as np
import xarray as xr
from symx import core, arr
from fractions import Fraction
from symx.core import F, I, b_and, b_not, b_or, f_add, f_div, f_eq, f_ite, f_le, f_lt, f_max, f_min, f_mul, f_sub, lift_f, NAN, ZERO, ONE
from symx.harness import H, cells, ite
from symx.run import Spec

THOROUGH = os.environ.get('VERIF_TIER') == 'thorough'


def coords_noindex(**kw):
  """Coordinates whose values are symbolic: no pandas index is built."""
  return xr.Coordinates({k: v for k, v in kw.items()}, indexes={})


def objarr(shape, fn):
  out = np.empty(shape, dtype=object)
  for i in np.ndindex(*shape) if shape else [()]:
    out[i] = fn(*i)
  return out


def wrapcells(c):
  return arr.from_obj(np.asarray(c, dtype=object))


def fsum(xs):
  acc = ZERO
  for x in xs:
    acc = f_add(acc, lift_f(x))
  return acc


def fb(b):
  """bool cell -> F 0/1"""
  return lift_f(b)


def extended(h, name, shape):
  """Floats including NaN and both infinities."""
  v, k = h.floats(name, shape, nan=True), h.ints(name + '_inf', shape, -1, 1)
  return np.where(k == 1, np.inf, np.where(k == -1, -np.inf, v))
