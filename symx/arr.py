"""SymArray: a numpy duck array whose elements are symbolic scalars.

It implements __array_ufunc__ and __array_function__, so real numpy-based code
(including xarray's own plumbing) runs on it unmodified.  `data` is an object
ndarray holding F (float dtypes), I (int/datetime dtypes) or python
bool/z3.BoolRef (bool dtype).  `dtype` is the numpy dtype the real array would
have.
"""
from fractions import Fraction
import functools
import itertools
import math
import operator
import numpy as np
import z3
from . import core
from .core import (B, F, I, NAN, ONE, PINF, NINF, ZERO, Unsupported, b_and,
                   b_ite, b_not, b_or, b_xor, f_add, f_eq, f_ite, f_le, f_lt,
                   f_mul, f_sub, is_c, is_k, lift_f)

_f8 = np.dtype('f8')
_b1 = np.dtype(bool)
_i8 = np.dtype('i8')

UNIT_NS = {'W': 7 * 86400 * 10**9, 'D': 86400 * 10**9, 'h': 3600 * 10**9,
           'm': 60 * 10**9, 's': 10**9, 'ms': 10**6, 'us': 10**3, 'ns': 1}


def kind(dtype):
  k = np.dtype(dtype).kind
  if k in 'f':
    return 'f'
  if k in 'iu':
    return 'i'
  if k in 'mM':
    return 'm'
  if k == 'b':
    return 'b'
  raise Unsupported(f'dtype {dtype} in symbolic array')


def unit_of(dtype):
  u, n = np.datetime_data(np.dtype(dtype))
  if n != 1:
    raise Unsupported(f'datetime unit {dtype}')
  return u


# ---------------------------------------------------------------------------
# Lifting


def _obj(shape):
  return np.empty(shape, dtype=object)


def _lift_elem(x, dt):
  k = kind(dt)
  if k == 'f':
    return lift_f(x)
  if k == 'b':
    return core.to_b(x)
  if k == 'i':
    return x if isinstance(x, I) else I(int(x))
  # datetime-like
  if isinstance(x, I):
    return x
  raise Unsupported('datetime element')


def from_np(a, dtype=None):
  """Concrete ndarray -> SymArray."""
  a = np.asarray(a)
  if a.dtype == object:
    return from_obj(a, dtype)
  dt = np.dtype(a.dtype)
  out = _obj(a.shape)
  k = kind(dt)
  if k == 'm':
    nat = np.isnat(a)
    iv = a.astype('i8')
    for i in np.ndindex(a.shape):
      out[i] = I(0, True) if nat[i] else I(int(iv[i]))
  else:
    for i in np.ndindex(a.shape):
      x = a[i]
      out[i] = (lift_f(x) if k == 'f' else bool(x) if k == 'b'
                else I(int(x)))
  r = SymArray(out, dt)
  return r if dtype is None else r.astype(dtype)


def from_obj(a, dtype=None):
  """Object ndarray of scalars -> SymArray (dtype inferred)."""
  dts = []
  for x in a.ravel():
    if isinstance(x, SymArray):
      dts.append(x.dtype)
    elif isinstance(x, F):
      dts.append(_f8)
    elif isinstance(x, (B, z3.BoolRef, bool, np.bool_)):
      dts.append(_b1)
    elif isinstance(x, I):
      dts.append(_i8)
    elif isinstance(x, (int, float, np.number, np.datetime64, np.timedelta64)):
      dts.append(np.asarray(x).dtype)
    else:
      raise Unsupported(f'object array element {type(x)}')
  dt = functools.reduce(np.promote_types, dts) if dts else _f8
  out = _obj(a.shape)
  for i in np.ndindex(a.shape):
    x = a[i]
    if isinstance(x, SymArray):
      x = x.astype(dt).data[()]
    elif isinstance(x, (np.datetime64, np.timedelta64)):
      x = from_np(np.asarray(x).astype(dt)).data[()]
    elif kind(dt) != 'm':
      x = _lift_elem(x, dt)
    out[i] = x
  r = SymArray(out, dt)
  return r if dtype is None else r.astype(dtype)


def is_sym(x):
  return isinstance(x, SymArray)


def lift(x, dtype=None):
  if isinstance(x, SymArray):
    return x if dtype is None else x.astype(dtype)
  if isinstance(x, (F, I, B)):
    a = _obj(())
    a[()] = x
    return from_obj(a, dtype)
  return from_np(np.asarray(x), dtype)


def const(dt, v):
  """0-d constant element."""
  return _lift_elem(v, dt)


def cast_elem(x, src, dst):
  ks, kd = kind(src), kind(dst)
  if ks == kd and ks != 'm':
    if ks == 'f' and np.dtype(dst).itemsize < np.dtype(src).itemsize:
      return x          # float32 rounding is not modelled
    return x
  if kd == 'f':
    if ks == 'b':
      return lift_f(x) if is_c(x) else lift_f(x)
    if ks == 'm':
      return lift_f(x)
    return lift_f(x)
  if kd == 'b':
    if ks == 'f':
      return core.f_tobool(x)
    return b_or(x.nat, b_not(core.i_eq(x.v, 0)))
  if kd == 'i':
    if ks == 'b':
      return I((1 if x else 0) if is_c(x) else z3.If(x, z3.IntVal(1), z3.IntVal(0)))
    if ks == 'f':
      t = core.f_trunc(x)
      if is_k(t.v):
        return I(int(t.v))
      return I(z3.ToInt(t.v))
    return I(x.v)
  if kd == 'm':
    if ks == 'i':
      return I(x.v)
    if ks == 'f':
      t = core.f_trunc(x)
      return I(int(t.v) if is_k(t.v) else z3.ToInt(t.v), x.nan)
    if ks == 'b':
      return cast_elem(cast_elem(x, src, _i8), _i8, dst)
    us, ud = unit_of(src), unit_of(dst)
    if us == ud or us == 'generic' or ud == 'generic':
      return x
    if us in 'YM' and ud not in 'YM' and np.dtype(src).kind == 'M' and is_k(x.v):
      return I(int(np.datetime64(int(x.v), us).astype(dst).astype('i8')), x.nat)
    if us not in UNIT_NS or ud not in UNIT_NS:
      raise Unsupported(f'cast {src}->{dst}')
    ns, nd = UNIT_NS[us], UNIT_NS[ud]
    if ns >= nd:
      return I(core.i_mul(x.v, ns // nd), x.nat)
    # numpy truncates timedelta towards zero?  It floors datetimes and
    # (since 1.x) floors timedeltas via C division with adjustment.
    return I(core.i_floordiv(x.v, nd // ns), x.nat)
  raise Unsupported(f'cast {src}->{dst}')


# ---------------------------------------------------------------------------
# Elementwise kernels by kind


def _e_ite(c, a, b, k):
  if c is True:
    return a
  if c is False:
    return b
  if k == 'f':
    return f_ite(c, a, b)
  if k == 'b':
    return b_ite(c, a, b)
  return I(core.i_ite(c, a.v, b.v), b_ite(c, a.nat, b.nat))


def _bi(fn):
  return lambda a, b: I(fn(a.v, b.v), b_or(a.nat, b.nat))


def _ci(fn):
  return lambda a, b: b_and(fn(a.v, b.v), b_not(b_or(a.nat, b.nat)))


def _imax(a, b):
  r = I(core.i_ite(core.i_lt(a.v, b.v), b.v, a.v))
  nat = b_or(a.nat, b.nat)
  return I(r.v, nat)


def _imin(a, b):
  r = I(core.i_ite(core.i_lt(b.v, a.v), b.v, a.v))
  return I(r.v, b_or(a.nat, b.nat))


BIN = {
    'add': {'f': f_add, 'i': _bi(core.i_add), 'm': _bi(core.i_add),
            'b': b_or},
    'subtract': {'f': f_sub, 'i': _bi(core.i_sub), 'm': _bi(core.i_sub)},
    'multiply': {'f': f_mul, 'i': _bi(core.i_mul), 'b': b_and},
    'divide': {'f': core.f_div},
    'floor_divide': {'f': core.f_floordiv, 'i': _bi(core.i_floordiv)},
    'remainder': {'f': core.f_mod, 'i': _bi(core.i_mod)},
    'power': {'f': core.f_pow},
    'float_power': {'f': core.f_pow},
    'maximum': {'f': core.f_max, 'i': _imax, 'm': _imax, 'b': b_or},
    'minimum': {'f': core.f_min, 'i': _imin, 'm': _imin, 'b': b_and},
    'fmax': {'f': lambda a, b: core.f_max(a, b, False), 'i': _imax},
    'fmin': {'f': lambda a, b: core.f_min(a, b, False), 'i': _imin},
    'hypot': {'f': lambda a, b: core.f_sqrt(
        f_add(f_mul(a, a), f_mul(b, b)))},
}
CMP = {
    'less': {'f': f_lt, 'i': _ci(core.i_lt), 'm': _ci(core.i_lt),
             'b': lambda a, b: b_and(b_not(a), b)},
    'less_equal': {'f': f_le, 'i': _ci(core.i_le), 'm': _ci(core.i_le),
                   'b': lambda a, b: b_or(b_not(a), b)},
    'equal': {'f': f_eq, 'i': _ci(core.i_eq), 'm': _ci(core.i_eq),
              'b': lambda a, b: b_not(b_xor(a, b))},
}
CMP['greater'] = {k: (lambda f: lambda a, b: f(b, a))(v)
                  for k, v in CMP['less'].items()}
CMP['greater_equal'] = {k: (lambda f: lambda a, b: f(b, a))(v)
                        for k, v in CMP['less_equal'].items()}
CMP['not_equal'] = {k: (lambda f: lambda a, b: b_not(f(a, b)))(v)
                    for k, v in CMP['equal'].items()}

LOGIC = {'logical_and': b_and, 'logical_or': b_or, 'logical_xor': b_xor,
         'bitwise_and': b_and, 'bitwise_or': b_or, 'bitwise_xor': b_xor}


def _mapelt(fn, *arrs):
  arrs = np.broadcast_arrays(*arrs)
  out = _obj(arrs[0].shape)
  if out.ndim == 0:
    out[()] = fn(*[a[()] for a in arrs])
    return out
  flat = [a.ravel() for a in arrs]
  o = [fn(*xs) for xs in zip(*flat)]
  out = _obj(len(o))
  for i, x in enumerate(o):
    out[i] = x
  return out.reshape(arrs[0].shape)


def _is_weak(x):
  return isinstance(x, (bool, int, float)) and not isinstance(x, np.generic)


def _dtype_of(x):
  if isinstance(x, SymArray):
    return x.dtype
  if isinstance(x, F):
    return _f8
  if isinstance(x, I):
    return _i8
  if isinstance(x, B):
    return _b1
  if _is_weak(x):
    return x            # weak scalar for np.result_type
  a = np.asarray(x)
  if a.dtype == object:
    return from_obj(a).dtype
  return a.dtype


def _rt(*xs):
  return np.result_type(*[_dtype_of(x) for x in xs])


def sym_where(c, a, b):
  dt = _rt(a, b)
  k = kind(dt)
  c_ = lift(c).astype(bool)
  a_, b_ = lift(a).astype(dt), lift(b).astype(dt)
  return SymArray(_mapelt(lambda c, x, y: _e_ite(c, x, y, k), c_.data, a_.data,
                          b_.data), dt)


def apply_binary(name, x, y):
  if name in LOGIC:
    if name.startswith('bitwise') and not (
        kind(lift(x).dtype) == 'b' and kind(lift(y).dtype) == 'b'):
      raise Unsupported('bitwise on non-bool')
    a, b = lift(x).astype(bool), lift(y).astype(bool)
    return SymArray(_mapelt(LOGIC[name], a.data, b.data), _b1)
  if name == 'true_divide':
    name = 'divide'
  if name in CMP:
    table, is_cmp = CMP[name], True
  elif name in BIN:
    table, is_cmp = BIN[name], False
  else:
    raise Unsupported(f'ufunc {name}')
  dx, dy = _dtype_of(x), _dtype_of(y)
  npdx = np.dtype(type(dx)) if _is_weak(dx) else dx
  npdy = np.dtype(type(dy)) if _is_weak(dy) else dy
  mk = lambda q: np.dtype(q).kind in 'mM'
  if mk(npdx) or mk(npdy):
    return _apply_time(name, table, is_cmp, x, y, npdx, npdy)
  if name == 'divide':
    dt = np.result_type(dx, dy)
    if kind(dt) != 'f':
      dt = _f8
  elif name == 'subtract' and kind(np.result_type(dx, dy)) == 'b':
    raise TypeError('numpy boolean subtract, the `-` operator, is not supported')
  else:
    dt = np.result_type(dx, dy)
  k = kind(dt)
  if k == 'b' and k not in table:
    dt = _i8
    k = 'i'
  if name in ('power', 'float_power') and k == 'i':
    e = lift(y)
    fn = table['f']
    a, b = lift(x).astype(_f8), e.astype(_f8)
    r = SymArray(_mapelt(fn, a.data, b.data), _f8)
    return r if name == 'float_power' else r.astype(dt)
  if k not in table:
    raise Unsupported(f'{name} on {dt}')
  a, b = lift(x).astype(dt), lift(y).astype(dt)
  return SymArray(_mapelt(table[k], a.data, b.data), _b1 if is_cmp else dt)


def _apply_time(name, table, is_cmp, x, y, dx, dy):
  kx, ky = np.dtype(dx).kind, np.dtype(dy).kind
  if is_cmp or name in ('maximum', 'minimum'):
    dt = np.promote_types(dx, dy)
    a, b = lift(x).astype(dt), lift(y).astype(dt)
    return SymArray(_mapelt(table['m'], a.data, b.data), _b1 if is_cmp else dt)
  # result dtype according to numpy
  rd = getattr(np, name)(np.zeros((), dx), np.ones((), dy)).dtype
  if name in ('add', 'subtract'):
    u = unit_of(rd)
    conv = lambda q, d: (lift(q) if np.dtype(d).kind in 'mM' else
                         lift(q).astype('m8[' + u + ']'))
    a, b = conv(x, dx), conv(y, dy)
    a = a.astype(f'{a.dtype.kind}8[{u}]')
    b = b.astype(f'{b.dtype.kind}8[{u}]')
    return SymArray(_mapelt(table['m'], a.data, b.data), rd)
  if name == 'multiply':
    if kx != 'm':
      x, y, kx, ky = y, x, ky, kx
    a, b = lift(x), lift(y)
    if b.dtype.kind == 'f':
      fb = _mapelt(lambda p, q: cast_elem(
          f_mul(lift_f(p), q), _f8, rd), a.data, b.data)
      return SymArray(fb, rd)
    b = b.astype(_i8)
    return SymArray(_mapelt(_bi(core.i_mul), a.data, b.data), rd)
  if name in ('divide', 'floor_divide', 'remainder'):
    if kx == 'm' and ky == 'm':
      dt = np.promote_types(dx, dy)
      a, b = lift(x).astype(dt), lift(y).astype(dt)
      if name == 'divide':
        return SymArray(_mapelt(lambda p, q: core.f_div(lift_f(p), lift_f(q)),
                                a.data, b.data), _f8)
      fn = core.i_floordiv if name == 'floor_divide' else core.i_mod
      return SymArray(_mapelt(_bi(fn), a.data, b.data), rd)
    if kx == 'm':
      a, b = lift(x), lift(y)
      if b.dtype.kind == 'f' or name == 'divide':
        return SymArray(_mapelt(lambda p, q: cast_elem(
            core.f_div(lift_f(p), lift_f(q)), _f8, rd), a.data, b.data), rd)
      return SymArray(_mapelt(_bi(core.i_floordiv), a.data, b.data), rd)
  raise Unsupported(f'{name} on {dx},{dy}')


UF_UNARY = {'exp', 'log', 'sin', 'cos', 'tan', 'arcsin', 'arccos', 'arctan',
            'sinh', 'cosh', 'tanh', 'log1p', 'expm1', 'log10', 'log2', 'cbrt'}


def apply_unary(name, x):
  x = lift(x)
  k = kind(x.dtype)
  d = x.data

  def m(fn, dt=None):
    return SymArray(_mapelt(fn, d), dt or x.dtype)

  if name in ('isnan', 'isnat'):
    if k == 'f':
      return m(lambda a: a.nan, _b1)
    if k == 'm':
      return m(lambda a: a.nat, _b1)
    return m(lambda a: False, _b1)
  if name == 'isfinite':
    if k == 'f':
      return m(lambda a: a.fin(), _b1)
    return m(lambda a: b_not(a.nat) if k == 'm' else True, _b1)
  if name == 'isinf':
    return m(lambda a: b_or(a.pinf, a.ninf) if k == 'f' else False, _b1)
  if name in ('logical_not',) or (name == 'invert' and k == 'b'):
    b = x.astype(bool)
    return SymArray(_mapelt(b_not, b.data), _b1)
  if name == 'positive' or name in ('conjugate', 'conj'):
    return SymArray(d.copy(), x.dtype)
  if k in 'im':
    if name == 'negative':
      return m(lambda a: I(core.i_sub(0, a.v), a.nat))
    if name in ('absolute', 'fabs'):
      r = m(lambda a: I(core.i_ite(core.i_lt(a.v, 0), core.i_sub(0, a.v), a.v),
                        a.nat))
      return r if name == 'absolute' else r.astype(_f8)
    if name == 'sign' and k == 'i':
      return m(lambda a: I(core.i_ite(core.i_lt(a.v, 0), -1, core.i_ite(
          core.i_eq(a.v, 0), 0, 1))))
    if name == 'square' and k == 'i':
      return m(lambda a: I(core.i_mul(a.v, a.v)))
    if name in ('floor', 'ceil', 'rint', 'trunc') and k == 'i':
      return x.copy()
    if k == 'm':
      raise Unsupported(f'{name} on time')
  if k == 'b' and name == 'absolute':
    return x.copy()
  if k != 'f':
    x = x.astype(_f8)
    d = x.data
  tbl = {'negative': core.f_neg, 'absolute': core.f_abs, 'fabs': core.f_abs,
         'sqrt': core.f_sqrt, 'square': lambda a: f_mul(a, a),
         'floor': core.f_floor, 'ceil': core.f_ceil, 'rint': core.f_rint,
         'trunc': core.f_trunc, 'sign': core.f_sign,
         'reciprocal': lambda a: core.f_div(ONE, a),
         'signbit': lambda a: f_lt(a, ZERO)}
  if name == 'signbit':
    return m(tbl[name], _b1)
  if name in tbl:
    return m(tbl[name])
  if name in ('deg2rad', 'radians'):
    c = lift_f(Fraction(math.pi) / 180)
    return m(lambda a: f_mul(a, c))
  if name in ('rad2deg', 'degrees'):
    c = lift_f(Fraction(180) / Fraction(math.pi))
    return m(lambda a: f_mul(a, c))
  if name in UF_UNARY:
    return m(lambda a: core.f_uf(name, a))
  raise Unsupported(f'ufunc {name}')


# ---------------------------------------------------------------------------
# Reductions


def _norm_axis(axis, ndim):
  if axis is None:
    return tuple(range(ndim))
  if isinstance(axis, (int, np.integer)):
    axis = (axis,)
  r = tuple(int(a) + ndim if a < 0 else int(a) for a in axis)
  for a in r:
    if not 0 <= a < ndim:
      raise np.exceptions.AxisError(a, ndim)
  return r


def _reduce(x, axis, fn, init, out_dt, keepdims=False):
  """Reduce via left fold in C order; fn(acc, elem). init None -> first elem."""
  axes = _norm_axis(axis, x.ndim)
  keep = [i for i in range(x.ndim) if i not in axes]
  t = x.data.transpose(keep + list(axes))
  kshape = tuple(x.shape[i] for i in keep)
  n = int(np.prod([x.shape[i] for i in axes])) if axes else 1
  t = t.reshape((int(np.prod(kshape)) if kshape else 1, n))
  out = _obj(t.shape[0])
  for r in range(t.shape[0]):
    acc = init
    for c in range(n):
      acc = t[r, c] if acc is None else fn(acc, t[r, c])
    if acc is None:
      raise ValueError('zero-size array to reduction operation which has no identity')
    out[r] = acc
  out = out.reshape(kshape)
  if keepdims:
    out = out.reshape(tuple(1 if i in axes else s for i, s in enumerate(x.shape)))
  return SymArray(out, out_dt)


def r_sum(x, axis=None, dtype=None, keepdims=False):
  x = lift(x)
  if dtype is not None:
    x = x.astype(dtype)
  k = kind(x.dtype)
  if k == 'b':
    x = x.astype(_i8)
    r = _reduce(x, axis, _bi(core.i_add), I(0), x.dtype, keepdims)
    n = r_count(x, axis)
    for e in r.data.ravel():
      core.note_range(e.v, 0, n)
    return r
  if k == 'f':
    init = ZERO
    # skip the neutral element so that terms stay small
    return _reduce(x, axis, f_add, init, x.dtype, keepdims)
  return _reduce(x, axis, _bi(core.i_add), I(0), x.dtype, keepdims)


def r_prod(x, axis=None, dtype=None, keepdims=False):
  x = lift(x)
  if dtype is not None:
    x = x.astype(dtype)
  k = kind(x.dtype)
  if k == 'b':
    x = x.astype(_i8)
    k = 'i'
  if k == 'f':
    return _reduce(x, axis, f_mul, ONE, x.dtype, keepdims)
  return _reduce(x, axis, _bi(core.i_mul), I(1), x.dtype, keepdims)


def r_minmax(x, name, axis=None, keepdims=False):
  x = lift(x)
  k = kind(x.dtype)
  fn = BIN[name][k]
  return _reduce(x, axis, fn, None, x.dtype, keepdims)


def r_bool(x, conj, axis=None, keepdims=False):
  x = lift(x).astype(bool)
  axes_fn = b_and if conj else b_or
  return _reduce(x, axis, axes_fn, conj, _b1, keepdims)


def r_count(x, axis):
  axes = _norm_axis(axis, x.ndim)
  return int(np.prod([x.shape[i] for i in axes])) if axes else 1


def r_mean(x, axis=None, dtype=None, keepdims=False):
  x = lift(x)
  if kind(x.dtype) != 'f':
    x = x.astype(_f8)
  s = r_sum(x, axis, dtype, keepdims)
  n = r_count(x, axis)
  return s / np.asarray(n, dtype=x.dtype)


def r_var(x, axis=None, ddof=0, keepdims=False):
  x = lift(x)
  if kind(x.dtype) != 'f':
    x = x.astype(_f8)
  m = r_mean(x, axis, keepdims=True)
  d = x - m
  s = r_sum(d * d, axis, keepdims=keepdims)
  return s / np.asarray(float(r_count(x, axis) - ddof), dtype=x.dtype)


# ---------------------------------------------------------------------------


class SymArray:
  __array_priority__ = 10000
  __slots__ = ('data', 'dtype', '__weakref__')

  def __init__(self, data, dtype):
    self.data = data
    self.dtype = np.dtype(dtype)

  # -- ndarray-like attributes
  @property
  def shape(self): return self.data.shape
  @shape.setter
  def shape(self, s): self.data = self.data.reshape(s)
  @property
  def ndim(self): return self.data.ndim
  @property
  def size(self): return self.data.size
  @property
  def nbytes(self): return self.data.size * self.dtype.itemsize
  @property
  def itemsize(self): return self.dtype.itemsize
  @property
  def T(self): return self.transpose()
  @property
  def real(self): return self
  @property
  def imag(self): return SymArray(_mapelt(lambda a: ZERO, self.data), self.dtype)
  @property
  def flat(self): return iter(self.ravel())

  def __len__(self):
    if not self.shape:
      raise TypeError('len() of unsized object')
    return self.shape[0]

  def __iter__(self):
    if not self.shape:
      raise TypeError('iteration over a 0-d array')
    for i in range(self.shape[0]):
      yield self[i]

  def __repr__(self):
    return f'SymArray(shape={self.shape}, dtype={self.dtype})'

  def __hash__(self):
    raise TypeError('unhashable SymArray')

  # -- conversion
  def to_numpy(self):
    return self

  def astype(self, dtype, order=None, casting=None, subok=None, copy=True):
    if dtype is float: dtype = _f8
    if dtype is int: dtype = _i8
    dtype = np.dtype(dtype)
    if dtype == object:
      return self.__array__()
    if dtype == self.dtype:
      return SymArray(self.data.copy() if copy else self.data, dtype)
    src = self.dtype
    return SymArray(_mapelt(lambda e: cast_elem(e, src, dtype), self.data), dtype)

  def view(self, *a, **k):
    if a and a[0] in ('i8', np.int64, _i8) and self.dtype.kind in 'mM':
      return self.astype(_i8)
    return SymArray(self.data.view(), self.dtype)

  def _try_concrete(self):
    """ndarray when every element is constant, else None."""
    out = np.empty(self.shape, dtype=self.dtype)
    k = kind(self.dtype)
    for i in np.ndindex(self.shape):
      e = self.data[i]
      if k == 'f':
        if not e.const:
          return None
        out[i] = core.f_float(e)
      elif k == 'b':
        if not is_c(e):
          e = z3.simplify(e)
          if z3.is_true(e): e = True
          elif z3.is_false(e): e = False
          else: return None
        out[i] = e
      else:
        if not is_k(e.v) or not is_c(e.nat):
          return None
        if k == 'm':
          out[i] = (np.array('NaT', dtype=self.dtype) if e.nat
                    else np.array(e.v, 'i8').astype(self.dtype))
        else:
          out[i] = e.v
    return out

  def __array__(self, dtype=None, copy=None):
    c = self._try_concrete()
    if c is not None:
      return c if dtype is None else c.astype(dtype)
    if dtype is not None and np.dtype(dtype) != object:
      if np.dtype(dtype).kind == 'b' or self.dtype.kind == 'b':
        # force: fork on every element (sound: explores all combinations)
        out = np.empty(self.shape, bool)
        d = self.astype(bool).data
        for i in np.ndindex(self.shape):
          out[i] = core.ctx().branch(d[i])
        return out.astype(dtype)
      if self.dtype.kind in 'iumM':
        return self._force_ints().astype(dtype)
      raise Unsupported(f'conversion of symbolic array to ndarray {dtype}')
    if self.dtype.kind == 'b':
      out = np.empty(self.shape, bool)
      for i in np.ndindex(self.shape):
        out[i] = core.ctx().branch(self.data[i])
      return out
    if self.dtype.kind in 'iumM':
      return self._force_ints()
    out = _obj(self.shape)
    for i in np.ndindex(self.shape):
      out[i] = self.data[i]
    return out

  def _force_ints(self):
    out = np.empty(self.shape, dtype=self.dtype)
    for i in np.ndindex(self.shape):
      e = self.data[i]
      if core.ctx().branch(e.nat):
        out[i] = np.array('NaT', dtype=self.dtype)
        continue
      v = core.ctx().concretize_int(e.v)
      out[i] = (np.array(v, 'i8').astype(self.dtype)
                if self.dtype.kind in 'mM' else v)
    return out

  def item(self, *args):
    x = self.data.item(*args) if args else self.data.reshape(()).item() \
        if self.data.size == 1 else None
    if x is None:
      raise ValueError('can only convert an array of size 1 to a Python scalar')
    return self._scalar(x)

  def _scalar(self, x):
    a = _obj(())
    a[()] = x
    return SymArray(a, self.dtype)

  def tolist(self):
    if self.ndim == 0:
      return self
    return [y.tolist() for y in self]

  def __bool__(self):
    if self.size != 1:
      raise ValueError('The truth value of an array with more than one element is ambiguous.')
    return core.ctx().branch(self.astype(bool).data.reshape(())[()])

  def __float__(self):
    c = self._try_concrete()
    if c is not None:
      return float(c.reshape(()))
    raise Unsupported('float() of a symbolic value')

  def __int__(self):
    e = self.data.reshape(())[()]
    if kind(self.dtype) == 'i':
      return core.ctx().concretize_int(e.v)
    if kind(self.dtype) == 'b':
      return int(core.ctx().branch(e))
    c = self._try_concrete()
    if c is not None:
      return int(c.reshape(()))
    return core.ctx().concretize_int(cast_elem(e, self.dtype, _i8).v)

  def __index__(self):
    if kind(self.dtype) != 'i' or self.ndim != 0:
      raise TypeError('only integer scalar arrays can be converted to a scalar index')
    return int(self)

  # -- shape manipulation
  def _w(self, d):
    if not isinstance(d, np.ndarray) or d.dtype != object:
      a = _obj(())
      a[()] = d
      d = a
    return SymArray(d, self.dtype)

  def reshape(self, *s, **k):
    if len(s) == 1 and not isinstance(s[0], (int, np.integer)):
      s = s[0]
    return self._w(self.data.reshape(s))
  def ravel(self, order='C'): return self._w(self.data.ravel())
  def flatten(self, order='C'): return self._w(self.data.flatten())
  def transpose(self, *a): return self._w(self.data.transpose(*a))
  def swapaxes(self, a, b): return self._w(self.data.swapaxes(a, b))
  def squeeze(self, axis=None): return self._w(self.data.squeeze(axis))
  def copy(self, order='C'): return self._w(self.data.copy())
  def __copy__(self): return self.copy()
  def __deepcopy__(self, memo): return self.copy()
  def fill(self, v): self[...] = v
  def repeat(self, n, axis=None): return self._w(np.repeat(self.data, n, axis))
  def take(self, idx, axis=None, **k): return np.take(self, idx, axis=axis)
  def sum(self, axis=None, dtype=None, out=None, keepdims=False, **k):
    return np.sum(self, axis=axis, dtype=dtype, keepdims=keepdims, **k)
  def prod(self, axis=None, dtype=None, out=None, keepdims=False, **k):
    return r_prod(self, axis, dtype, keepdims)
  def mean(self, axis=None, dtype=None, out=None, keepdims=False, **k):
    return np.mean(self, axis=axis, dtype=dtype, keepdims=keepdims, **k)
  def var(self, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k):
    return r_var(self, axis, ddof, keepdims)
  def std(self, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k):
    return np.sqrt(r_var(self, axis, ddof, keepdims))
  def max(self, axis=None, out=None, keepdims=False, **k):
    return r_minmax(self, 'maximum', axis, keepdims)
  def min(self, axis=None, out=None, keepdims=False, **k):
    return r_minmax(self, 'minimum', axis, keepdims)
  def all(self, axis=None, out=None, keepdims=False, **k):
    return r_bool(self, True, axis, keepdims)
  def any(self, axis=None, out=None, keepdims=False, **k):
    return r_bool(self, False, axis, keepdims)
  def argmax(self, axis=None, **k): return np.argmax(self, axis=axis)
  def argmin(self, axis=None, **k): return np.argmin(self, axis=axis)
  def argsort(self, axis=-1, **k): return np.argsort(self, axis=axis)
  def cumsum(self, axis=None, dtype=None, out=None):
    return np.cumsum(self, axis=axis, dtype=dtype)
  def cumprod(self, axis=None, dtype=None, out=None):
    return np.cumprod(self, axis=axis, dtype=dtype)
  def round(self, decimals=0, out=None): return np.round(self, decimals)
  def clip(self, min=None, max=None, out=None, **k):
    return np.clip(self, min, max)
  def dot(self, o): return np.dot(self, o)
  def conj(self): return self
  conjugate = conj
  def nonzero(self): return np.nonzero(self)
  def sort(self, axis=-1, **k): self.data[...] = sort(self, axis).data
  def searchsorted(self, v, side='left', sorter=None):
    return np.searchsorted(self, v, side=side)

  # -- indexing
  def _conv_key(self, key):
    """Turn SymArray indexers into concrete ones where possible."""
    tup = key if isinstance(key, tuple) else (key,)
    out, symidx = [], None
    for j, k in enumerate(tup):
      if isinstance(k, (F, I, B)):
        k = lift(k)
      if isinstance(k, SymArray):
        c = k._try_concrete()
        if c is not None:
          k = c if c.ndim else c[()]
        elif kind(k.dtype) == 'b':
          k = k.__array__()
        else:
          symidx = j
      out.append(k)
    return tuple(out), symidx

  def __getitem__(self, key):
    key, symidx = self._conv_key(key)
    if symidx is not None:
      return self._sym_take(key, symidx)
    r = self.data[key]
    return self._w(r) if isinstance(r, np.ndarray) else self._scalar(r)

  def _sym_take(self, key, j):
    nsym = sum(isinstance(k, SymArray) for k in key)
    others_ok = all(isinstance(k, (slice, SymArray)) or k is Ellipsis
                    for k in key)
    if nsym == 1 and others_ok:
      if any(k is Ellipsis for k in key):
        pos = [i for i, k in enumerate(key) if k is Ellipsis][0]
        fill = self.ndim - (len(key) - 1)
        key = key[:pos] + (slice(None),) * fill + key[pos + 1:]
        j = [i for i, k in enumerate(key) if isinstance(k, SymArray)][0]
      idx = key[j]
      base = self[tuple(slice(None) if isinstance(k, SymArray) else k
                        for k in key)]
      return sym_take(base, idx, j)
    g = self._gather(key)
    if g is not None:
      return g
    # general: force concrete by forking
    key = tuple(k.__array__() if isinstance(k, SymArray) else k for k in key)
    key = tuple(k[()] if isinstance(k, np.ndarray) and k.ndim == 0 else k
                for k in key)
    return self[key]

  def _gather(self, key):
    """Several advanced indices, some symbolic: ite over the source cells."""
    if any(k is None for k in key):
      return None
    if any(k is Ellipsis for k in key):
      pos = [i for i, k in enumerate(key) if k is Ellipsis][0]
      fill = self.ndim - (len(key) - 1)
      key = key[:pos] + (slice(None),) * fill + key[pos + 1:]
    key = key + (slice(None),) * (self.ndim - len(key))
    adv = [i for i, k in enumerate(key) if not isinstance(k, slice)]
    idx = []
    for i in adv:
      k = key[i]
      if isinstance(k, (list, tuple)):
        k = np.asarray(k)
      if not isinstance(k, SymArray):
        k = np.asarray(k)
        if k.dtype.kind not in 'iu':
          return None
        if k.size and (k.min() < -self.shape[i] or k.max() >= self.shape[i]):
          raise IndexError('index out of bounds')
        k = from_np(k)
      idx.append(k)
    base = self.data[tuple(k if isinstance(k, slice) else slice(None) for k in key)]
    base = np.moveaxis(base, adv, range(len(adv)))
    ns = base.shape[:len(adv)]
    rest = base.shape[len(adv):]
    bshape = np.broadcast_shapes(*[k.shape for k in idx])
    cellsi = [np.broadcast_to(k.data, bshape) for k in idx]
    ok = True
    for c, n in zip(cellsi, ns):
      for p in np.ndindex(bshape):
        v = c[p].v
        if not is_k(v):
          ok = b_and(ok, b_and(core.i_le(-n, v), core.i_lt(v, n)))
    if not core.ctx().branch(ok):
      raise IndexError('index out of bounds')
    kd = kind(self.dtype)
    out = _obj(bshape + rest)
    for p in np.ndindex(bshape):
      sub = base
      for c, n in zip(cellsi, ns):
        v = c[p].v
        if is_k(v):
          sub = sub[v]
          if not isinstance(sub, np.ndarray):
            o = _obj(()); o[()] = sub; sub = o
          continue
        acc = _obj(rest if sub.ndim == 1 + len(rest) else sub.shape[1:])
        for q in np.ndindex(acc.shape):
          a = sub[(n - 1,) + q]
          for t in range(n - 2, -1, -1):
            a = _e_ite(b_or(core.i_eq(v, t), core.i_eq(v, t - n)), sub[(t,) + q], a, kd)
          acc[q] = a
        sub = acc
      for q in np.ndindex(rest):
        out[p + q] = sub[q]
    adjacent = adv == list(range(adv[0], adv[-1] + 1))
    if adjacent and adv[0] and bshape:
      out = np.moveaxis(out, range(len(bshape)), range(adv[0], adv[0] + len(bshape)))
    return SymArray(out, self.dtype)

  def __setitem__(self, key, value):
    # boolean mask assignment without forking
    if isinstance(key, SymArray) and kind(key.dtype) == 'b' and \
        key._try_concrete() is None:
      v = lift(value)
      if key.ndim == self.ndim and v.ndim == 0:
        r = sym_where(key, v.astype(self.dtype), self)
        self.data[...] = r.data
        return
    key, symidx = self._conv_key(key)
    if symidx is not None:
      key = tuple(k.__array__() if isinstance(k, SymArray) else k for k in key)
      key = tuple(k[()] if isinstance(k, np.ndarray) and k.ndim == 0 else k
                  for k in key)
    v = lift(value).astype(self.dtype)
    if v.ndim == 0:
      tgt = self.data[key]
      if isinstance(tgt, np.ndarray):
        fillv = _obj(tgt.shape)
        for i in np.ndindex(tgt.shape):
          fillv[i] = v.data[()]
        self.data[key] = fillv
      else:
        self.data[key] = v.data[()]
    else:
      self.data[key] = v.data

  # -- protocols
  def __array_ufunc__(self, ufunc, method, *inputs, out=None, where=True,
                      **kwargs):
    name = ufunc.__name__
    for x in inputs:
      if not isinstance(x, (SymArray, np.ndarray, np.generic, int, float, bool,
                            list, tuple, F, I, B, Fraction)):
        return NotImplemented
    if where is not True:
      if method == 'reduce' or where is not True:
        if method != 'reduce':
          raise Unsupported('ufunc where=')
    dt = kwargs.pop('dtype', None)
    kwargs.pop('casting', None)
    kwargs.pop('order', None)
    kwargs.pop('subok', None)
    if method == '__call__':
      if ufunc.nout != 1:
        if name == 'divmod':
          r = (apply_binary('floor_divide', *inputs),
               apply_binary('remainder', *inputs))
          return r
        if name == 'modf':
          x = lift(inputs[0])
          t = apply_unary('trunc', x)
          return (x - t, t)
        raise Unsupported(f'ufunc {name}')
      if ufunc.nin == 1:
        r = apply_unary(name, inputs[0])
      elif ufunc.nin == 2:
        if name == 'matmul':
          r = matmul(*inputs)
        elif name == 'vecdot':
          r = r_sum(lift(inputs[0]) * lift(inputs[1]), -1)
        else:
          r = apply_binary(name, *inputs)
      elif name == 'clip':
        r = np.minimum(np.maximum(inputs[0], inputs[1]), inputs[2])
      else:
        raise Unsupported(f'ufunc {name}')
    elif method == 'reduce':
      axis = kwargs.get('axis', 0)
      keep = kwargs.get('keepdims', False)
      x = inputs[0]
      if where is not True:
        ident = {'add': 0, 'multiply': 1, 'logical_or': False,
                 'logical_and': True}.get(name)
        if ident is None:
          raise Unsupported('reduce where=')
        x = sym_where(where, x, ident)
      if name == 'add':
        r = r_sum(x, axis, dt, keep)
      elif name == 'multiply':
        r = r_prod(x, axis, dt, keep)
      elif name in ('maximum', 'minimum', 'fmax', 'fmin'):
        r = r_minmax(x, name, axis, keep)
      elif name in ('logical_and', 'bitwise_and'):
        r = r_bool(x, True, axis, keep)
      elif name in ('logical_or', 'bitwise_or'):
        r = r_bool(x, False, axis, keep)
      else:
        raise Unsupported(f'{name}.reduce')
      init = kwargs.get('initial', np._NoValue)
      if init is not np._NoValue and init is not None:
        if not (name == 'add' and init == 0 or name == 'multiply' and init == 1):
          r = apply_binary(name, r, init)
      dt = None
    elif method == 'accumulate':
      axis = kwargs.get('axis', 0)
      r = accumulate(inputs[0], lambda a, b: apply_binary(name, a, b), axis, dt)
    elif method == 'outer':
      a, b = lift(inputs[0]), lift(inputs[1])
      r = apply_binary(name, a.reshape(a.shape + (1,) * b.ndim), b)
    elif method == 'at':
      tgt, idx = inputs[0], inputs[1]
      if not isinstance(tgt, SymArray):
        raise Unsupported('ufunc.at on concrete target')
      vals = lift(inputs[2]) if len(inputs) > 2 else None
      idx_l = np.asarray(idx) if not isinstance(idx, tuple) else None
      if idx_l is None or idx_l.ndim != 1:
        raise Unsupported('ufunc.at general')
      for p, q in enumerate(idx_l):
        v = vals if vals.ndim == 0 else vals[p]
        tgt[int(q)] = apply_binary(name, tgt[int(q)], v)
      return None
    else:
      raise Unsupported(f'{name}.{method}')
    if dt is not None and method == '__call__':
      if not (r.dtype == _b1):
        r = r.astype(dt)
    if out is not None:
      o = out[0] if isinstance(out, tuple) else out
      if isinstance(o, SymArray):
        if o.shape != np.broadcast_shapes(o.shape, r.shape):
          raise ValueError('non-broadcastable output operand')
        if not np.can_cast(r.dtype, o.dtype, 'same_kind'):
          raise TypeError(f'Cannot cast ufunc {name!r} output from {r.dtype} to {o.dtype}')
        o.data[...] = np.broadcast_to(r.astype(o.dtype).data, o.shape)
        return o
      raise Unsupported('ufunc out= concrete ndarray')
    return r

  def __array_function__(self, func, types, args, kwargs):
    from . import funcs
    return funcs.dispatch(func, args, kwargs)

  # -- operators
  def _b(name):  # pylint: disable=no-self-argument
    uf = getattr(np, name)
    def op(self, o):
      if not _operand_ok(o):
        return NotImplemented
      return uf(self, o)
    return op

  def _r(name):  # pylint: disable=no-self-argument
    uf = getattr(np, name)
    def op(self, o):
      if not _operand_ok(o):
        return NotImplemented
      return uf(o, self)
    return op

  def _i(name):  # pylint: disable=no-self-argument
    uf = getattr(np, name)
    def op(self, o):
      if not _operand_ok(o):
        return NotImplemented
      return uf(self, o, out=(self,))
    return op

  __add__ = _b('add'); __radd__ = _r('add'); __iadd__ = _i('add')
  __sub__ = _b('subtract'); __rsub__ = _r('subtract'); __isub__ = _i('subtract')
  __mul__ = _b('multiply'); __rmul__ = _r('multiply'); __imul__ = _i('multiply')
  __truediv__ = _b('divide'); __rtruediv__ = _r('divide'); __itruediv__ = _i('divide')
  __floordiv__ = _b('floor_divide'); __rfloordiv__ = _r('floor_divide')
  __mod__ = _b('remainder'); __rmod__ = _r('remainder')
  __pow__ = _b('power'); __rpow__ = _r('power')
  __and__ = _b('bitwise_and'); __rand__ = _r('bitwise_and'); __iand__ = _i('bitwise_and')
  __or__ = _b('bitwise_or'); __ror__ = _r('bitwise_or'); __ior__ = _i('bitwise_or')
  __xor__ = _b('bitwise_xor'); __rxor__ = _r('bitwise_xor')
  __lt__ = _b('less'); __le__ = _b('less_equal')
  __gt__ = _b('greater'); __ge__ = _b('greater_equal')
  __eq__ = _b('equal'); __ne__ = _b('not_equal')
  __matmul__ = _b('matmul'); __rmatmul__ = _r('matmul')
  def __divmod__(self, o): return (self // o, self % o)
  def __neg__(self): return np.negative(self)
  def __pos__(self): return self.copy()
  def __abs__(self): return np.absolute(self)
  def __invert__(self): return np.invert(self)


def _operand_ok(o):
  return isinstance(o, (SymArray, np.ndarray, np.generic, int, float, bool,
                        list, tuple, F, I, B, Fraction))


def sym_take(x, idx, axis):
  """Gather with symbolic integer indices (ite chain); forks on range."""
  n = x.shape[axis]
  k = kind(x.dtype)
  moved = np.moveaxis(x.data, axis, 0)
  rest = moved.shape[1:]
  out = _obj(idx.shape + rest)
  for p in np.ndindex(idx.shape):
    i = idx.data[p].v
    ok = b_and(core.i_le(-n, i), core.i_lt(i, n))
    if not core.ctx().branch(ok):
      raise IndexError('index out of bounds')
    for q in np.ndindex(rest):
      acc = moved[(n - 1,) + q]
      for t in range(n - 2, -1, -1):
        acc = _e_ite(b_or(core.i_eq(i, t), core.i_eq(i, t - n)),
                     moved[(t,) + q], acc, k)
      out[p + q] = acc
  out = np.moveaxis(out, list(range(idx.ndim)),
                    list(range(axis, axis + idx.ndim)))
  return SymArray(out, x.dtype)


def accumulate(x, fn, axis, dt=None):
  x = lift(x)
  if dt is not None:
    x = x.astype(dt)
  x = x.copy()
  n = x.shape[axis]
  sl = lambda i: tuple(i if a == axis % x.ndim else slice(None)
                       for a in range(x.ndim))
  for i in range(1, n):
    r = fn(x[sl(i - 1)], x[sl(i)])
    x[sl(i)] = r
  return x


def sort(x, axis=-1):
  """Bubble network; NaN last (numpy order)."""
  x = lift(x)
  k = kind(x.dtype)
  if axis is None:
    x = x.ravel()
    axis = 0
  t = np.moveaxis(x.data, axis, -1).copy()
  n = t.shape[-1]
  for p in np.ndindex(t.shape[:-1]):
    row = list(t[p])
    for i in range(n):
      for j in range(n - 1 - i):
        a, b = row[j], row[j + 1]
        sw = before(b, a, k)
        row[j], row[j + 1] = _e_ite(sw, b, a, k), _e_ite(sw, a, b, k)
    for j in range(n):
      t[p + (j,)] = row[j]
  return SymArray(np.moveaxis(t, -1, axis), x.dtype)


def before(a, b, k):
  """a strictly before b in sort order (NaN/NaT last)."""
  if k == 'f':
    return b_or(f_lt(a, b), b_and(b_not(a.nan), b.nan))
  if k == 'b':
    return b_and(b_not(a), b)
  return b_and(b_not(a.nat), b_or(b.nat, core.i_lt(a.v, b.v)))


def ranks(row, k):
  """Stable 0-based sort positions of each element (python int or z3 Int)."""
  n = len(row)
  out = []
  for i in range(n):
    c = 0
    for j in range(n):
      if i == j:
        continue
      if j < i:
        p = b_not(before(row[i], row[j], k))
      else:
        p = before(row[j], row[i], k)
      c = core.i_add(c, core.i_ite(p, 1, 0))
    out.append(c)
  return out


def argsort(x, axis=-1):
  x = lift(x)
  k = kind(x.dtype)
  if axis is None:
    x = x.ravel()
    axis = 0
  t = np.moveaxis(x.data, axis, -1)
  out = _obj(t.shape)
  n = t.shape[-1]
  for p in np.ndindex(t.shape[:-1]):
    rk = ranks(list(t[p]), k)
    for j in range(n):
      acc = n - 1
      for i in range(n - 2, -1, -1):
        acc = core.i_ite(core.i_eq(rk[i], j), i, acc)
      out[p + (j,)] = I(acc)
  return SymArray(np.moveaxis(out, -1, axis), _i8)


def matmul(a, b):
  a, b = lift(a), lift(b)
  if a.ndim == 1 and b.ndim == 1:
    return r_sum(a * b)
  if a.ndim == 1:
    return matmul(a.reshape((1,) + a.shape), b)[..., 0, :]
  if b.ndim == 1:
    return matmul(a, b.reshape(b.shape + (1,)))[..., 0]
  p = a.reshape(a.shape + (1,)) * b.reshape(b.shape[:-2] + (1,) + b.shape[-2:])
  return r_sum(p, axis=-2)
