"""__array_function__ implementations for SymArray."""
import functools
import math
import numpy as np
from . import arr, core
from .arr import (SymArray, _e_ite, _mapelt, _norm_axis, _obj, is_sym, kind, lift,
                  sym_where)
from .core import (F, I, NAN, ONE, ZERO, Unsupported, b_and, b_not, b_or,
                   f_add, f_ite, f_mul, lift_f)

H = {}


def imp(*fs):
  def deco(g):
    for f in fs:
      if f is not None:
        H[f] = g
    return g
  return deco


def unwrap(x):
  return x.data if is_sym(x) else x


# Functions that only move elements around: run on the object backing array.
_STRUCT1 = ['transpose', 'moveaxis', 'swapaxes', 'reshape', 'ravel',
            'expand_dims', 'squeeze', 'tile', 'repeat', 'roll', 'flip',
            'fliplr', 'flipud', 'rot90', 'broadcast_to', 'atleast_1d',
            'atleast_2d', 'atleast_3d', 'diagonal', 'diag', 'tril', 'triu',
            'rollaxis', 'resize', 'copy', 'delete']


def _mk_struct(name):
  real = getattr(np, name)

  def g(a, *args, **kw):
    kw.pop('subok', None)
    r = real(lift(a).data, *args, **kw)
    if isinstance(r, (list, tuple)):
      return type(r)(SymArray(x, a.dtype) for x in r)
    if not isinstance(r, np.ndarray):
      return a._scalar(r)
    if name in ('tril', 'triu', 'diag') and r.size:
      z = arr._lift_elem(0, a.dtype)
      r = _mapelt(lambda e: z if isinstance(e, int) else e, r)
    return SymArray(np.array(r, dtype=object, copy=True)
                    if name == 'broadcast_to' else r, a.dtype)
  H[real] = g


for _n in _STRUCT1:
  _mk_struct(_n)


@imp(np.broadcast_arrays)
def _(*xs, subok=False):
  sh = np.broadcast_shapes(*[np.shape(x) for x in xs])
  return [np.broadcast_to(x, sh) for x in xs]


def _multi(xs):
  xs = list(xs)
  dt = arr._rt(*[x if is_sym(x) else np.asarray(x) for x in xs])
  return [lift(x).astype(dt).data for x in xs], dt


def _mk_join(name):
  real = getattr(np, name)

  def g(xs, *args, **kw):
    kw.pop('dtype', None)
    kw.pop('casting', None)
    ds, dt = _multi(xs)
    return SymArray(real(ds, *args, **kw), dt)
  H[real] = g


for _n in ['concatenate', 'stack', 'vstack', 'hstack', 'dstack', 'column_stack']:
  _mk_join(_n)


@imp(np.append)
def _(a, v, axis=None):
  if axis is None:
    return np.concatenate([np.ravel(a), np.ravel(v)])
  return np.concatenate([a, v], axis=axis)


@imp(np.insert)
def _(a, obj, values, axis=None):
  ds, dt = _multi([a, values])
  return SymArray(np.insert(ds[0], obj, ds[1], axis), dt)


@imp(np.split)
def _(a, *args, **kw):
  return [SymArray(x, a.dtype) for x in np.split(a.data, *args, **kw)]


@imp(np.array_split)
def _(a, *args, **kw):
  return [SymArray(x, a.dtype) for x in np.array_split(a.data, *args, **kw)]


@imp(np.block)
def _(arrays):
  raise Unsupported('np.block')


@imp(np.sum)
def _(a, axis=None, dtype=None, out=None, keepdims=False, initial=None,
      where=True, **k):
  if where is not True and where is not np._NoValue:
    a = sym_where(where, a, 0)
  r = arr.r_sum(a, axis, dtype, bool(keepdims) if keepdims is not np._NoValue else False)
  if initial is not None and initial is not np._NoValue:
    r = r + initial
  return r


@imp(np.prod)
def _(a, axis=None, dtype=None, out=None, keepdims=False, **k):
  return arr.r_prod(a, axis, dtype, keepdims is True)


@imp(np.mean)
def _(a, axis=None, dtype=None, out=None, keepdims=False, where=True, **k):
  if where is not True and where is not np._NoValue:
    s = np.sum(a, axis=axis, dtype=dtype, keepdims=keepdims is True, where=where)
    n = np.sum(lift(np.broadcast_to(where, a.shape)), axis=axis, keepdims=keepdims is True)
    return s / n
  return arr.r_mean(a, axis, dtype, keepdims is True)


@imp(np.var)
def _(a, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k):
  ddof = k.get('correction', ddof)
  if ddof is np._NoValue: ddof = 0
  return arr.r_var(a, axis, ddof, keepdims is True)


@imp(np.std)
def _(a, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k):
  return np.sqrt(arr.r_var(a, axis, ddof, keepdims is True))


@imp(np.max, np.amax)
def _(a, axis=None, out=None, keepdims=False, **k):
  return arr.r_minmax(a, 'maximum', axis, keepdims is True)


@imp(np.min, np.amin)
def _(a, axis=None, out=None, keepdims=False, **k):
  return arr.r_minmax(a, 'minimum', axis, keepdims is True)


@imp(np.ptp)
def _(a, axis=None, **k):
  return np.max(a, axis=axis) - np.min(a, axis=axis)


@imp(np.all)
def _(a, axis=None, out=None, keepdims=False, **k):
  return arr.r_bool(a, True, axis, keepdims is True)


@imp(np.any)
def _(a, axis=None, out=None, keepdims=False, **k):
  return arr.r_bool(a, False, axis, keepdims is True)


@imp(np.count_nonzero)
def _(a, axis=None, keepdims=False):
  return arr.r_sum(lift(a).astype(bool), axis, None, keepdims)


def _zap(a, fill):
  a = lift(a)
  if kind(a.dtype) != 'f':
    return a
  return sym_where(np.isnan(a), np.asarray(fill, a.dtype), a)


@imp(np.nansum)
def _(a, axis=None, dtype=None, out=None, keepdims=False, **k):
  return arr.r_sum(_zap(a, 0), axis, dtype, keepdims is True)


@imp(np.nanprod)
def _(a, axis=None, dtype=None, out=None, keepdims=False, **k):
  return arr.r_prod(_zap(a, 1), axis, dtype, keepdims is True)


@imp(np.nanmean)
def _(a, axis=None, dtype=None, out=None, keepdims=False, **k):
  a = lift(a)
  if kind(a.dtype) != 'f':
    return arr.r_mean(a, axis, dtype, keepdims is True)
  s = arr.r_sum(_zap(a, 0), axis, dtype, keepdims is True)
  n = arr.r_sum(~np.isnan(a), axis, None, keepdims is True)
  return (s / n).astype(s.dtype)


@imp(np.nanvar)
def _(a, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k):
  a = lift(a)
  n1 = arr.r_sum(~np.isnan(a), axis, None, True)
  m = arr.r_sum(_zap(a, 0), axis, None, True) / n1
  d = sym_where(np.isnan(a), np.asarray(0, a.dtype), a - m)
  s = arr.r_sum(d * d, axis, None, keepdims is True)
  n = arr.r_sum(~np.isnan(a), axis, None, keepdims is True)
  # numpy returns NaN when n - ddof <= 0
  r = s / (n - ddof)
  return sym_where(n - ddof <= 0, np.nan, r).astype(a.dtype)


@imp(np.nanstd)
def _(a, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k):
  return np.sqrt(np.nanvar(a, axis=axis, ddof=ddof, keepdims=keepdims is True))


@imp(np.nanmax)
def _(a, axis=None, out=None, keepdims=False, **k):
  return arr.r_minmax(a, 'fmax' if kind(a.dtype) == 'f' else 'maximum', axis,
                      keepdims is True)


@imp(np.nanmin)
def _(a, axis=None, out=None, keepdims=False, **k):
  return arr.r_minmax(a, 'fmin' if kind(a.dtype) == 'f' else 'minimum', axis,
                      keepdims is True)


@imp(np.where)
def _(c, *ab):
  if not ab:
    return np.nonzero(c)
  return sym_where(c, *ab)


@imp(np.nonzero)
def _(a):
  return np.nonzero(np.asarray(lift(a).astype(bool)))


@imp(np.flatnonzero)
def _(a):
  return np.flatnonzero(np.asarray(lift(a).astype(bool)))


@imp(np.argwhere)
def _(a):
  return np.argwhere(np.asarray(lift(a).astype(bool)))


@imp(np.select)
def _(condlist, choicelist, default=0):
  r = default
  for c, v in list(zip(condlist, choicelist))[::-1]:
    r = sym_where(c, v, r)
  return r


@imp(np.nan_to_num)
def _(a, copy=True, nan=0.0, posinf=None, neginf=None):
  a = lift(a)
  if kind(a.dtype) != 'f':
    return a.copy()
  r = sym_where(np.isnan(a), np.asarray(nan, a.dtype), a)
  fi = np.finfo(a.dtype)
  r = sym_where(np.isinf(a) & (a > 0), np.asarray(fi.max if posinf is None else posinf, a.dtype), r)
  return sym_where(np.isinf(a) & (a < 0), np.asarray(fi.min if neginf is None else neginf, a.dtype), r)


@imp(np.clip)
def _(a, a_min=None, a_max=None, out=None, min=None, max=None, **k):
  lo = a_min if a_min is not None and a_min is not np._NoValue else min
  hi = a_max if a_max is not None and a_max is not np._NoValue else max
  if lo is np._NoValue: lo = None
  if hi is np._NoValue: hi = None
  r = a
  if lo is not None:
    r = np.maximum(r, lo)
  if hi is not None:
    r = np.minimum(r, hi)
  return r


@imp(np.round, getattr(np, 'around', None))
def _(a, decimals=0, out=None):
  a = lift(a)
  if kind(a.dtype) == 'i':
    return a.copy()
  if decimals == 0:
    return np.rint(a)
  p = 10.0 ** decimals
  return np.rint(a * p) / p


@imp(np.zeros_like, np.empty_like)
def _(a, dtype=None, order='K', subok=True, shape=None, **k):
  return np.zeros(a.shape if shape is None else shape, dtype or a.dtype)


def _full_like_c(a, v, dtype=None, shape=None):
  sh = a.shape if shape is None else shape
  dt = np.dtype(dtype or a.dtype)
  if is_sym(v):
    return np.broadcast_to(v.astype(dt), sh)
  return np.full(sh, v, dtype=dt)


# *_like results become SymArray so that later item assignment of symbolic
# values works.
@imp(np.zeros_like, np.empty_like)
def _(a, dtype=None, order='K', subok=True, shape=None, **k):
  return lift(_full_like_c(a, 0, dtype, shape))


@imp(np.ones_like)
def _(a, dtype=None, order='K', subok=True, shape=None, **k):
  return lift(_full_like_c(a, 1, dtype, shape))


@imp(np.full_like)
def _(a, fill_value, dtype=None, order='K', subok=True, shape=None, **k):
  return lift(_full_like_c(a, fill_value, dtype, shape))


@imp(np.shape)
def _(a): return a.shape
@imp(np.ndim)
def _(a): return a.ndim
@imp(np.size)
def _(a, axis=None): return a.size if axis is None else a.shape[axis]
@imp(np.iscomplexobj)
def _(a): return False
@imp(np.isrealobj)
def _(a): return True
@imp(np.real)
def _(a): return a
@imp(np.imag)
def _(a): return a.imag
@imp(np.result_type)
def _(*a): return arr._rt(*a)
@imp(np.can_cast)
def _(f, t, casting='safe'):
  return np.can_cast(f.dtype if is_sym(f) else f, t, casting)
@imp(np.common_type)
def _(*a): return np.float64
@imp(np.may_share_memory, np.shares_memory)
def _(a, b, *k):
  return np.may_share_memory(unwrap(a), unwrap(b))
@imp(np.min_scalar_type)
def _(a): return a.dtype


@imp(np.cumsum)
def _(a, axis=None, dtype=None, out=None):
  a = lift(a)
  if kind(a.dtype) == 'b': a = a.astype('i8')
  if axis is None: a, axis = a.ravel(), 0
  return arr.accumulate(a, np.add, axis, dtype)


@imp(np.cumprod)
def _(a, axis=None, dtype=None, out=None):
  a = lift(a)
  if kind(a.dtype) == 'b': a = a.astype('i8')
  if axis is None: a, axis = a.ravel(), 0
  return arr.accumulate(a, np.multiply, axis, dtype)


@imp(np.nancumsum)
def _(a, axis=None, dtype=None, out=None):
  return np.cumsum(_zap(a, 0), axis=axis, dtype=dtype)


@imp(np.diff)
def _(a, n=1, axis=-1, prepend=np._NoValue, append=np._NoValue):
  a = lift(a)
  parts = []
  if prepend is not np._NoValue:
    parts.append(np.broadcast_to(lift(prepend), a.shape[:axis % a.ndim] + (1,) + a.shape[axis % a.ndim + 1:]) if np.ndim(prepend) == 0 else prepend)
  parts.append(a)
  if append is not np._NoValue:
    parts.append(np.broadcast_to(lift(append), a.shape[:axis % a.ndim] + (1,) + a.shape[axis % a.ndim + 1:]) if np.ndim(append) == 0 else append)
  if len(parts) > 1:
    a = np.concatenate(parts, axis=axis)
  for _ in range(n):
    sl = [slice(None)] * a.ndim
    s1, s0 = list(sl), list(sl)
    s1[axis] = slice(1, None)
    s0[axis] = slice(None, -1)
    x, y = a[tuple(s1)], a[tuple(s0)]
    a = np.not_equal(x, y) if kind(a.dtype) == 'b' else x - y
  return a


@imp(np.sort)
def _(a, axis=-1, kind=None, **k): return arr.sort(a, axis)
@imp(np.argsort)
def _(a, axis=-1, kind=None, **k): return arr.argsort(a, axis)


@imp(np.partition)
def _(a, kth, axis=-1, **k): return arr.sort(a, axis)


def _argext(a, axis, prefer, skipnan, keepdims=False):
  a = lift(a)
  k = kind(a.dtype)
  if k == 'b':
    a, k = a.astype('i8'), 'i'
  if axis is None:
    a, axis = a.ravel(), 0
  t = np.moveaxis(a.data, axis, -1)
  out = _obj(t.shape[:-1])
  for p in np.ndindex(out.shape):
    row = t[p]
    best, bi = row[0], 0
    for j in range(1, len(row)):
      e = row[j]
      if k == 'f':
        better = prefer(e, best)
        if skipnan:
          better = b_or(better, b_and(best.nan, b_not(e.nan)))
        else:
          better = b_or(b_and(b_not(best.nan), e.nan), better)
      else:
        better = prefer(e, best)
      best = _e_ite(better, e, best, k)
      bi = core.i_ite(better, j, bi)
    if skipnan and k == 'f':
      if core.ctx().branch(best.nan):
        raise ValueError('All-NaN slice encountered')
    out[p] = I(bi)
  if keepdims:
    out = np.expand_dims(out, axis)
  return SymArray(out, 'i8')


def _gt(a, b): return core.f_lt(b, a) if isinstance(a, F) else core.i_lt(b.v, a.v)
def _lt(a, b): return core.f_lt(a, b) if isinstance(a, F) else core.i_lt(a.v, b.v)


@imp(np.argmax)
def _(a, axis=None, out=None, keepdims=False): return _argext(a, axis, _gt, False, keepdims is True)
@imp(np.argmin)
def _(a, axis=None, out=None, keepdims=False): return _argext(a, axis, _lt, False, keepdims is True)
@imp(np.nanargmax)
def _(a, axis=None, **k): return _argext(a, axis, _gt, True)
@imp(np.nanargmin)
def _(a, axis=None, **k): return _argext(a, axis, _lt, True)


@imp(np.take)
def _(a, indices, axis=None, out=None, mode='raise'):
  a = lift(a) if not is_sym(a) else a
  if axis is None:
    a, axis = a.ravel(), 0
  axis = axis % a.ndim
  if mode == 'wrap':
    indices = np.mod(indices, a.shape[axis])
  elif mode == 'clip':
    indices = np.clip(indices, 0, a.shape[axis] - 1)
  if is_sym(indices) and indices._try_concrete() is None:
    return arr.sym_take(a, indices, axis)
  idx = np.asarray(indices)
  return a._w(np.take(a.data, idx, axis=axis))


@imp(np.take_along_axis)
def _(a, indices, axis=-1):
  a = lift(a)
  if axis is None:
    a, axis = a.ravel(), 0
  indices = lift(indices)
  n = a.shape[axis]
  k = kind(a.dtype)
  t = np.moveaxis(a.data, axis, -1)
  q = np.moveaxis(indices.data, axis, -1)
  sh = np.broadcast_shapes(t.shape[:-1], q.shape[:-1])
  t = np.broadcast_to(t, sh + t.shape[-1:])
  q = np.broadcast_to(q, sh + q.shape[-1:])
  out = _obj(q.shape)
  for p in np.ndindex(q.shape):
    i = q[p].v
    if not core.ctx().branch(b_and(core.i_le(-n, i), core.i_lt(i, n))):
      raise IndexError('index out of bounds')
    row = t[p[:-1]]
    acc = row[n - 1]
    for s in range(n - 2, -1, -1):
      acc = _e_ite(b_or(core.i_eq(i, s), core.i_eq(i, s - n)), row[s], acc, k)
    out[p] = acc
  return SymArray(np.moveaxis(out, -1, axis), a.dtype)


@imp(np.searchsorted)
def _(a, v, side='left', sorter=None):
  if sorter is not None:
    raise Unsupported('searchsorted sorter')
  a_, v_ = lift(a), lift(v)
  k = np.promote_types(a_.dtype, v_.dtype)
  a_, v_ = a_.astype(k), v_.astype(k)
  kk = kind(k)

  def one(x):
    c = 0
    for e in a_.data:
      if side == 'left':
        p = arr.before(e, x, kk)
      else:
        p = b_not(arr.before(x, e, kk))
      c = core.i_add(c, core.i_ite(p, 1, 0))
    return I(c)
  return SymArray(_mapelt(one, v_.data), 'i8')


@imp(np.digitize)
def _(x, bins, right=False):
  b = np.asarray(bins) if not is_sym(bins) else bins
  if is_sym(b):
    raise Unsupported('digitize with symbolic bins')
  if len(b) > 1 and b[0] > b[-1]:
    return len(b) - np.searchsorted(b[::-1], x, side='right' if right else 'left')
  return np.searchsorted(b, x, side='left' if right else 'right')


@imp(np.isin)
def _(element, test_elements, assume_unique=False, invert=False, **k):
  e = lift(element)
  t = lift(test_elements).ravel() if not is_sym(test_elements) else test_elements.ravel()
  r = lift(np.zeros(e.shape, bool))
  for i in range(t.size):
    r = r | (e == t[i])
  return ~r if invert else r


@imp(np.isclose)
def _(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
  a, b = lift(a), lift(b)
  fin = np.isfinite(a) & np.isfinite(b)
  r = (fin & (np.abs(a - b) <= atol + rtol * np.abs(b))) | (~fin & (a == b))
  if equal_nan:
    r = r | (np.isnan(a) & np.isnan(b))
  return r


@imp(np.allclose)
def _(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
  return bool(np.all(np.isclose(a, b, rtol, atol, equal_nan)))


@imp(np.array_equal)
def _(a, b, equal_nan=False):
  if np.shape(a) != np.shape(b):
    return False
  r = np.equal(a, b)
  if equal_nan:
    r = r | (np.isnan(a) & np.isnan(b))
  return bool(np.all(r))


@imp(np.array_equiv)
def _(a, b):
  return bool(np.all(np.equal(a, b)))


@imp(np.copyto)
def _(dst, src, casting='same_kind', where=True):
  if not is_sym(dst):
    raise Unsupported('copyto concrete destination')
  if where is True:
    dst[...] = src
  else:
    dst.data[...] = sym_where(where, lift(src).astype(dst.dtype), dst).data


@imp(np.putmask)
def _(a, mask, values):
  np.copyto(a, values, where=mask)


@imp(np.place)
def _(a, mask, vals):
  raise Unsupported('np.place')


@imp(np.pad)
def _(a, pad_width, mode='constant', **kw):
  if mode == 'constant':
    cv = kw.pop('constant_values', 0)
    r = np.pad(np.arange(a.size).reshape(a.shape), pad_width, mode, constant_values=-1)
    if np.ndim(cv) != 0 and len(set(np.ravel(cv).tolist())) != 1:
      raise Unsupported('pad with several constants')
    c = np.ravel(cv)[0] if np.ndim(cv) else cv
    ce = lift(c).astype(a.dtype).data[()]
  else:
    if mode in ('mean', 'linear_ramp', 'maximum', 'minimum', 'median'):
      raise Unsupported(f'pad {mode}')
    r = np.pad(np.arange(a.size).reshape(a.shape), pad_width, mode, **kw)
    ce = None
  flat = a.data.ravel()
  out = _obj(r.shape)
  for i in np.ndindex(r.shape):
    out[i] = ce if r[i] < 0 else flat[r[i]]
  return SymArray(out, a.dtype)


@imp(np.einsum)
def _(subs, *ops, **kw):
  if not isinstance(subs, str):
    raise Unsupported('einsum sublist format')
  subs = subs.replace(' ', '')
  if '->' in subs:
    lhs, rhs = subs.split('->')
  else:
    lhs = subs
    ch = lhs.replace(',', '')
    rhs = ''.join(sorted(c for c in set(ch) if ch.count(c) == 1 and c != '.'))
    if '...' in lhs:
      rhs = '...' + rhs
  ins = lhs.split(',')
  ops = [lift(o) for o in ops]
  dt = arr._rt(*ops)
  # expand ellipsis
  pool = [c for c in 'ABCDEFGHIJKLMNOPQRSTUVWXYZ' if c not in subs]
  ell = 0
  for t, o in zip(ins, ops):
    if '...' in t:
      ell = max(ell, o.ndim - (len(t) - 3))
  names = pool[:ell]
  new = []
  for t, o in zip(ins, ops):
    if '...' in t:
      n = o.ndim - (len(t) - 3)
      t = t.replace('...', ''.join(names[ell - n:] if n else ''))
    new.append(t)
  rhs = rhs.replace('...', ''.join(names))
  size = {}
  for t, o in zip(new, ops):
    if len(set(t)) != len(t):
      raise Unsupported('einsum repeated index')
    for c, s in zip(t, o.shape):
      if size.get(c, 1) != 1 and s != 1 and size[c] != s:
        raise ValueError('operands could not be broadcast together')
      size[c] = s if size.get(c, 1) == 1 else size[c]
  order = list(rhs) + [c for c in size if c not in rhs]
  res = None
  for t, o in zip(new, ops):
    perm = [t.index(c) for c in order if c in t]
    x = o.astype(dt).transpose(perm) if perm else o.astype(dt)
    x = x.reshape(tuple(size[c] if c in t and o.shape[t.index(c)] != 1 else 1
                        for c in order))
    res = x if res is None else res * x
  full = tuple(size[c] for c in order)
  if res.shape != full:
    res = np.broadcast_to(res, full)
  ax = tuple(range(len(rhs), len(order)))
  if not ax:
    return res
  if kind(res.dtype) == 'b':
    return np.any(res, axis=ax)
  return arr.r_sum(res, ax)


@imp(np.tensordot)
def _(a, b, axes=2):
  a, b = lift(a), lift(b)
  if isinstance(axes, int):
    ax_a, ax_b = list(range(a.ndim - axes, a.ndim)), list(range(axes))
  else:
    ax_a, ax_b = axes
    ax_a = [ax_a] if isinstance(ax_a, int) else list(ax_a)
    ax_b = [ax_b] if isinstance(ax_b, int) else list(ax_b)
  la = [chr(97 + i) for i in range(a.ndim)]
  lb = [chr(65 + i) for i in range(b.ndim)]
  for i, j in zip(ax_a, ax_b):
    lb[j] = la[i]
  out = [c for i, c in enumerate(la) if i not in [x % a.ndim for x in ax_a]]
  out += [c for i, c in enumerate(lb) if i not in [x % b.ndim for x in ax_b]]
  return np.einsum(''.join(la) + ',' + ''.join(lb) + '->' + ''.join(out), a, b)


@imp(np.dot)
def _(a, b, out=None):
  a, b = lift(a), lift(b)
  if a.ndim == 0 or b.ndim == 0:
    return a * b
  if b.ndim == 1:
    return np.tensordot(a, b, axes=([a.ndim - 1], [0]))
  return np.tensordot(a, b, axes=([a.ndim - 1], [b.ndim - 2]))


@imp(getattr(np, 'vdot', None), np.inner)
def _(a, b):
  return arr.r_sum(lift(a) * lift(b), -1)


@imp(np.outer)
def _(a, b, out=None):
  return np.ravel(a)[:, None] * np.ravel(b)[None, :]


@imp(np.trapezoid)
def _(y, x=None, dx=1.0, axis=-1):
  y = lift(y)
  sl = lambda s: tuple(s if i == axis % y.ndim else slice(None) for i in range(y.ndim))
  if x is not None:
    x = lift(x)
    d = np.diff(x, axis=-1 if x.ndim == 1 else axis)
    if x.ndim == 1:
      sh = [1] * y.ndim
      sh[axis] = -1
      d = d.reshape(tuple(sh))
  else:
    d = dx
  return arr.r_sum(d * (y[sl(slice(1, None))] + y[sl(slice(None, -1))]) / 2.0, axis)


@imp(np.average)
def _(a, axis=None, weights=None, returned=False, keepdims=False):
  if weights is None:
    return np.mean(a, axis=axis)
  w, a = lift(weights), lift(a)
  if w.shape != a.shape:
    sh = [1] * a.ndim
    sh[axis] = -1
    w = w.reshape(tuple(sh))
  w = np.broadcast_to(w, a.shape)
  r = np.sum(a * w, axis=axis) / np.sum(w, axis=axis)
  return (r, np.sum(w, axis=axis)) if returned else r


def _nsort(row, n):
  return row


def _quantile_sorted(row, n, q):
  """Linear-interpolated quantile; row sorted (NaN last), n = valid count."""
  # position = q * (n - 1)
  if core.is_k(n):
    if n == 0:
      return NAN
    pos = core.Fraction(q) * (n - 1)
    lo = math.floor(pos)
    fr = pos - lo
    hi = min(lo + 1, n - 1)
    a, b = row[lo], row[hi]
    if fr == 0:
      return a
    return f_add(a, f_mul(F(core.Fraction(fr)), core.f_sub(b, a)))
  acc = NAN
  for k in range(len(row), 0, -1):
    acc = f_ite(core.i_eq(n, k), _quantile_sorted(row, k, q), acc)
  return acc


def _quantile(a, q, axis, skipna, keepdims=False, method='linear', **k):
  if method != 'linear' and method is not np._NoValue:
    raise Unsupported(f'quantile method {method}')
  a = lift(a)
  if kind(a.dtype) != 'f': a = a.astype('f8')
  qs = np.asarray(q, float)
  if axis is None:
    a, axis = a.ravel(), 0
  if isinstance(axis, tuple):
    axes = _norm_axis(axis, a.ndim)
    keep = [i for i in range(a.ndim) if i not in axes]
    a = a.transpose(keep + list(axes))
    a = a.reshape(a.shape[:len(keep)] + (-1,))
    axis = a.ndim - 1
    if keepdims is True:
      raise Unsupported('quantile keepdims with several axes')
  s = arr.sort(a, axis)
  t = np.moveaxis(s.data, axis, -1)
  res = []
  for qq in qs.ravel():
    out = _obj(t.shape[:-1])
    for p in np.ndindex(out.shape):
      row = list(t[p])
      n = 0
      anynan = False
      for e in row:
        n = core.i_add(n, core.i_ite(e.nan, 0, 1))
        anynan = b_or(anynan, e.nan)
      if skipna:
        out[p] = _quantile_sorted(row, n, qq)
      else:
        out[p] = f_ite(anynan, NAN, _quantile_sorted(row, len(row), qq))
    if keepdims is True:
      out = np.expand_dims(out, axis)
    res.append(SymArray(out, a.dtype))
  if qs.ndim == 0:
    return res[0]
  r = np.stack(res)
  return r.reshape(qs.shape + r.shape[1:])


@imp(np.quantile)
def _(a, q, axis=None, out=None, overwrite_input=False, method='linear', keepdims=False, **k):
  return _quantile(a, q, axis, False, keepdims, method)
@imp(np.nanquantile)
def _(a, q, axis=None, out=None, overwrite_input=False, method='linear', keepdims=False, **k):
  return _quantile(a, q, axis, True, keepdims, method)
@imp(np.percentile)
def _(a, q, axis=None, out=None, overwrite_input=False, method='linear', keepdims=False, **k):
  return _quantile(a, np.asarray(q, float) / 100, axis, False, keepdims, method)
@imp(np.nanpercentile)
def _(a, q, axis=None, out=None, overwrite_input=False, method='linear', keepdims=False, **k):
  return _quantile(a, np.asarray(q, float) / 100, axis, True, keepdims, method)
@imp(np.median)
def _(a, axis=None, out=None, overwrite_input=False, keepdims=False):
  return _quantile(a, 0.5, axis, False, keepdims is True)
@imp(np.nanmedian)
def _(a, axis=None, out=None, overwrite_input=False, keepdims=False):
  return _quantile(a, 0.5, axis, True, keepdims is True)


@imp(np.interp)
def _(x, xp, fp, left=None, right=None, period=None):
  if period is not None:
    raise Unsupported('interp period')
  x, xp, fp = lift(x), lift(xp).astype('f8'), lift(fp).astype('f8')
  n = xp.size

  def one(e):
    r = fp.data[n - 1] if right is None else lift_f(right)
    # inside segments, from the right; x == xp[-1] gives fp[-1]
    r = f_ite(core.f_eq(e, xp.data[n - 1]), fp.data[n - 1], r)
    for i in range(n - 2, -1, -1):
      a, b = xp.data[i], xp.data[i + 1]
      s = core.f_div(core.f_sub(fp.data[i + 1], fp.data[i]), core.f_sub(b, a))
      v = f_add(fp.data[i], f_mul(s, core.f_sub(e, a)))
      r = f_ite(core.f_lt(e, b), v, r)
    lo = fp.data[0] if left is None else lift_f(left)
    r = f_ite(core.f_lt(e, xp.data[0]), lo, r)
    return f_ite(e.nan, NAN, r)
  return SymArray(_mapelt(one, x.astype('f8').data), 'f8')


@imp(np.unique)
def _(ar, return_index=False, return_inverse=False, return_counts=False, axis=None,
      equal_nan=True, **k):
  x = lift(ar)
  c = x._try_concrete()
  if c is not None or axis is not None:
    if c is None:
      raise Unsupported('unique along an axis')
    return np.unique(c, return_index=return_index, return_inverse=return_inverse,
                     return_counts=return_counts, axis=axis)
  # Decide the order by forking: one path per weak ordering of the elements.
  kd = arr.kind(x.dtype)
  br = core.ctx().branch
  groups = []      # each: list of indices with equal value, ascending
  flat = list(x.data.ravel())
  for i, e in enumerate(flat):
    lo = 0
    placed = False
    while lo < len(groups):
      g = flat[groups[lo][0]]
      if br(arr.before(e, g, kd)):
        groups.insert(lo, [i])
        placed = True
        break
      if not br(arr.before(g, e, kd)):
        groups[lo].append(i)
        placed = True
        break
      lo += 1
    if not placed:
      groups.append([i])
  out = np.empty(len(groups), dtype=object)
  for j, g in enumerate(groups):
    out[j] = flat[g[0]]
  res = [SymArray(out, x.dtype)]
  if return_index:
    res.append(np.array([g[0] for g in groups], dtype='i8'))
  if return_inverse:
    inv = np.empty(len(flat), dtype='i8')
    for j, g in enumerate(groups):
      inv[g] = j
    res.append(inv.reshape(x.shape))
  if return_counts:
    res.append(np.array([len(g) for g in groups], dtype='i8'))
  return res[0] if len(res) == 1 else tuple(res)


@imp(np.apply_along_axis)
def _(func1d, axis, a, *args, **kw):
  axis = axis % a.ndim
  t = np.moveaxis(a, axis, -1)
  outs = [func1d(t[p], *args, **kw) for p in np.ndindex(t.shape[:-1])]
  r = np.stack([lift(o) for o in outs])
  r = r.reshape(t.shape[:-1] + r.shape[1:])
  if r.ndim == a.ndim:
    r = np.moveaxis(r, -1, axis)
  return r


@imp(np.apply_over_axes)
def _(func, a, axes):
  raise Unsupported('apply_over_axes')


@imp(np.array2string, np.array_repr, np.array_str)
def _(a, *k, **kw): return repr(a)


@imp(np.fill_diagonal)
def _(a, val, wrap=False):
  n = min(a.shape)
  for i in range(n):
    a[(i,) * a.ndim] = val


@imp(np.eye)
def _(*a, **k):
  raise Unsupported('eye')


@imp(np.gradient)
def _(*a, **k):
  raise Unsupported('gradient')


@imp(np.corrcoef, np.cov)
def _(*a, **k):
  raise Unsupported('cov')


@imp(np.convolve)
def _(a, v, mode='full'):
  a, v = lift(a), lift(v)
  n, m = a.size, v.size
  out = []
  for i in range(n + m - 1):
    acc = None
    for j in range(m):
      if 0 <= i - j < n:
        t = a[i - j] * v[j]
        acc = t if acc is None else acc + t
    out.append(acc)
  r = np.stack(out)
  if mode == 'full':
    return r
  if mode == 'same':
    k = max(n, m)
    s = (n + m - 1 - k) // 2
    return r[s:s + k]
  lo, hi = min(n, m), max(n, m)
  return r[lo - 1:hi]


def dispatch(func, args, kwargs):
  g = H.get(func)
  if g is not None:
    if func not in (np.zeros_like, np.ones_like, np.empty_like, np.full_like):
      kwargs = {k: v for k, v in kwargs.items() if v is not np._NoValue}
    kwargs.pop('like', None)
    out = kwargs.get('out')
    if out is not None:
      kwargs.pop('out')
      r = g(*args, **kwargs)
      if not is_sym(out):
        raise Unsupported('out= concrete ndarray')
      out[...] = r
      return out
    return g(*args, **kwargs)
  # Fall back to numpy's own (pure Python) implementation, run on the duck
  # array; C implementations end up in __array__ and raise if unsupported.
  implm = getattr(func, '__wrapped__', None) or getattr(func, '_implementation', None)
  if implm is not None:
    return implm(*args, **kwargs)
  raise Unsupported(f'numpy function {getattr(func, "__name__", func)}')
