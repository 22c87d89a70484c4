"""Small adaptations of xarray that let symbolic values pass through.

Only behaviour on symbolic (object cell) data changes; concrete data takes the
original path.
"""
import numpy as np
from xarray.core import indexing
from xarray.core import variable as _variable
from . import arr, core, funcs  # funcs registers numpy's originals

_PATCHES = []


def patch(obj, name, new):
  """Replaces an attribute, remembering the original for disable()."""
  _PATCHES.append((obj, name, getattr(obj, name), new))
  setattr(obj, name, new)


_ON = [True]


def enabled():
  return _ON[0]


def disable():
  """The unmodified libraries: used for every run on concrete values."""
  _ON[0] = False
  for obj, name, old, _ in reversed(_PATCHES):
    setattr(obj, name, old)


def enable():
  _ON[0] = True
  for obj, name, _, new in _PATCHES:
    setattr(obj, name, new)


_orig = indexing.PandasIndexingAdapter.get_duck_array


def _get_duck_array(self):
  a = self.array
  if getattr(a, 'dtype', None) == object and len(a) and isinstance(
      a[0], (core.F, core.I, core.B)):
    out = np.empty(len(a), dtype=object)
    for i, x in enumerate(a):
      out[i] = x.b if isinstance(x, core.B) else x
    return arr.SymArray(out, np.dtype(self.dtype))
  return _orig(self)


patch(indexing.PandasIndexingAdapter, 'get_duck_array', _get_duck_array)


# -- .dt accessor on symbolic times ----------------------------------------
import datetime as _dt
from xarray.core import accessor_dt as _acc

_o_index_or_data = _acc._index_or_data
_o_series = _acc._access_through_series
_o_round = _acc._round_through_series_or_index
_i8, _f8 = np.dtype('i8'), np.dtype('f8')


def _index_or_data(obj):
  d = obj.variable.data
  return d if isinstance(d, arr.SymArray) else _o_index_or_data(obj)


def _civil(days):
  """(year, first day of year, day of year) of a symbolic day count."""
  c = core
  if c.is_k(days):
    d = _dt.date(1970, 1, 1) + _dt.timedelta(days=days)
    j = (_dt.date(d.year, 1, 1) - _dt.date(1970, 1, 1)).days
    return d.year, j
  b = c.int_bounds(days)
  if b is not None:
    d0 = _dt.date(1970, 1, 1)
    y0 = (d0 + _dt.timedelta(days=b[0])).year
    y1 = (d0 + _dt.timedelta(days=b[1])).year
    if y1 - y0 <= 60:
      jan = lambda y: (_dt.date(y, 1, 1) - d0).days
      y, j = y0, jan(y0)
      for k in range(y0 + 1, y1 + 1):
        ge = c.i_le(jan(k), days)
        y, j = c.i_ite(ge, k, y), c.i_ite(ge, jan(k), j)
      return y, j
  fd, add, sub, mul = c.i_floordiv, c.i_add, c.i_sub, c.i_mul
  z = add(days, 719468)
  era = fd(z, 146097)
  doe = sub(z, mul(era, 146097))
  yoe = fd(sub(add(sub(doe, fd(doe, 1460)), fd(doe, 36524)), fd(doe, 146096)), 365)
  doy = sub(doe, sub(add(mul(365, yoe), fd(yoe, 4)), fd(yoe, 100)))
  mp = fd(add(mul(5, doy), 2), 153)
  y = add(add(yoe, mul(era, 400)), c.i_ite(c.i_le(10, mp), 1, 0))
  y1 = sub(y, 1)
  j = sub(add(sub(add(mul(365, sub(y, 1970)), fd(y1, 4)), fd(y1, 100)), fd(y1, 400)), 477)
  return y, j


def _leap(y):
  m = core.i_mod
  return core.b_and(core.i_eq(m(y, 4), 0), core.b_or(
      core.b_not(core.i_eq(m(y, 100), 0)), core.i_eq(m(y, 400), 0)))


_CUM = [0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334]
_LEN = [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]


def time_field(e, per_s, name, td):
  c = core
  if not (e.nat is False):
    raise c.Unsupported('.dt of possibly missing time')
  t = e.v
  div = lambda a, n, u: (c.i_mul(a, u // n) if u % n == 0 and u >= n else None)
  secs = c.i_floordiv(t, per_s)
  sub = c.i_sub(t, c.i_mul(secs, per_s))
  days = c.i_floordiv(t, per_s * 86400)
  sod = c.i_sub(secs, c.i_mul(days, 86400))
  if name in ('microsecond', 'microseconds'):
    return c.i_mul(sub, 10**6 // per_s) if per_s <= 10**6 else c.i_floordiv(sub, per_s // 10**6)
  if name in ('nanosecond', 'nanoseconds'):
    return c.i_mod(sub, 1000) if per_s == 10**9 else 0
  if td:
    if name == 'days':
      return days
    if name == 'seconds':
      return sod
    raise c.Unsupported('timedelta.' + name)
  if name == 'hour':
    return c.i_floordiv(sod, 3600)
  if name == 'minute':
    return c.i_mod(c.i_floordiv(sod, 60), 60)
  if name == 'second':
    return c.i_mod(sod, 60)
  if name in ('dayofweek', 'weekday', 'day_of_week'):
    return c.i_mod(c.i_add(days, 3), 7)
  y, j = _civil(days)
  if name == 'year':
    return y
  doy = c.i_sub(days, j)
  if name in ('dayofyear', 'day_of_year'):
    return c.i_add(doy, 1)
  lp = _leap(y)
  if name == 'is_leap_year':
    return lp
  mon, first, ln = 1, 0, 31
  for m in range(2, 13):
    f = c.i_add(_CUM[m - 1], c.i_ite(lp, 1, 0)) if m > 2 else _CUM[1]
    ge = c.i_le(f, doy)
    mon, first = c.i_ite(ge, m, mon), c.i_ite(ge, f, first)
    ln = c.i_ite(ge, c.i_ite(lp, 29, 28) if m == 2 else _LEN[m - 1], ln)
  if name == 'month':
    return mon
  if name == 'day':
    return c.i_add(c.i_sub(doy, first), 1)
  if name == 'quarter':
    return c.i_add(c.i_floordiv(c.i_sub(mon, 1), 3), 1)
  if name in ('days_in_month', 'daysinmonth'):
    return ln
  raise c.Unsupported('datetime.' + name)


def _access_through_series(values, name):
  if not isinstance(values, arr.SymArray):
    return _o_series(values, name)
  k = values._try_concrete()
  if k is not None:
    return _o_series(k, name)
  td = values.dtype.kind == 'm'
  ns = arr.UNIT_NS[arr.unit_of(values.dtype)]
  if ns > 10**9:
    values = values.astype(f'{values.dtype.kind}8[s]')
    ns = 10**9
  per_s = 10**9 // ns
  out = np.empty(values.shape, dtype=object)
  for i in np.ndindex(values.shape):
    e = values.data[i]
    if name == 'total_seconds':
      if e.nat is not False:
        raise core.Unsupported('.dt of possibly missing time')
      out[i] = core.f_div(core.lift_f(core.I(e.v)), core.lift_f(per_s))
    else:
      v = time_field(e, per_s, name, td)
      out[i] = v if name == 'is_leap_year' else core.I(v)
  dt = _f8 if name == 'total_seconds' else np.dtype(bool) if name == 'is_leap_year' else _i8
  return arr.SymArray(out, dt)


def _round(values, name, freq):
  if not isinstance(values, arr.SymArray) or values._try_concrete() is not None:
    return _o_round(values, name, freq)
  import pandas as pd
  step = pd.tseries.frequencies.to_offset(freq).nanos
  ns = arr.UNIT_NS[arr.unit_of(values.dtype)]
  if step % ns or name != 'floor':
    raise core.Unsupported(f'{name} to {freq}')
  step //= ns
  out = np.empty(values.shape, dtype=object)
  for i in np.ndindex(values.shape):
    e = values.data[i]
    out[i] = core.I(core.i_mul(core.i_floordiv(e.v, step), step), e.nat)
  return arr.SymArray(out, values.dtype)


patch(_acc, '_index_or_data', _index_or_data)
patch(_acc, '_access_through_series', _access_through_series)
patch(_acc, '_round_through_series_or_index', _round)


# -- numpy entry points that would coerce a DataArray or a list ---------------
import functools
from fractions import Fraction
import xarray as xr


def _unx(a):
  if isinstance(a, (xr.DataArray, xr.Variable)):
    d = a.data
    return d if isinstance(d, arr.SymArray) else a
  return a


def _coercing(fn):
  @functools.wraps(fn)
  def wrapper(*args, **kwargs):
    if any(isinstance(a, (xr.DataArray, xr.Variable)) for a in args):
      new = [_unx(a) for a in args]
      if any(isinstance(a, arr.SymArray) for a in new):
        args = [a.values if isinstance(a, (xr.DataArray, xr.Variable)) else a
                for a in new]
    return fn(*args, **kwargs)
  return wrapper


for _n in ('unique', 'sort', 'argsort', 'array_equal', 'allclose', 'searchsorted',
           'diff', 'isin', 'digitize', 'interp', 'quantile', 'nanquantile',
           'percentile', 'nanpercentile', 'cumsum', 'gradient', 'ravel',
           'flip', 'roll', 'concatenate', 'median', 'nanmedian', 'trapezoid',
           'convolve', 'einsum', 'pad', 'array_equiv', 'intersect1d', 'count_nonzero'):
  if hasattr(np, _n):
    patch(np, _n, _coercing(getattr(np, _n)))


def _has_sym(x, depth=3):
  if isinstance(x, (arr.SymArray, core.F, core.I, core.B)):
    return True
  if isinstance(x, (list, tuple)) and depth:
    return any(_has_sym(y, depth - 1) for y in x)
  if isinstance(x, (xr.DataArray, xr.Variable)):
    return x.ndim == 0 and isinstance(x.data, arr.SymArray)
  return False


def _stack(x):
  if isinstance(x, (list, tuple)):
    return np.stack([arr.lift(_stack(y)) for y in x])
  return arr.lift(_unx(x))


_np_array, _np_asarray = np.array, np.asarray


@functools.wraps(_np_array)
def _array(obj, *args, **kwargs):
  if isinstance(obj, (list, tuple)) and _has_sym(obj):
    dt = args[0] if args else kwargs.get('dtype')
    if dt is not None and np.dtype(dt) == object:
      return _np_array(obj, *args, **kwargs)
    if dt is not None and np.dtype(dt).names:
      return _Records(obj, np.dtype(dt))
    r = _stack(obj)
    return r if dt is None else r.astype(dt)
  return _np_array(obj, *args, **kwargs)


class _Records:
  """One-dimensional structured array (only what sorting needs)."""

  def __init__(self, rows, dtype):
    self.dtype = dtype
    self.cols = {n: _stack([r[i] for r in rows]).astype(dtype[n])
                 for i, n in enumerate(dtype.names)}

  def __len__(self):
    return len(next(iter(self.cols.values())))

  def __getitem__(self, name):
    return self.cols[name]

  def argsort(self, order=None):
    order = [order] if isinstance(order, str) else list(order or ())
    order += [n for n in self.dtype.names if n not in order]
    def less(i, j):
      for n in order:
        a, b = self.cols[n][i], self.cols[n][j]
        if bool(a < b):
          return True
        if bool(b < a):
          return False
      return False
    out = []
    for i in range(len(self)):
      k = len(out)
      while k and less(i, out[k - 1]):
        k -= 1
      out.insert(k, i)
    return np.asarray(out)


_np_argsort = np.argsort


@functools.wraps(_np_argsort)
def _argsort(a, *args, **kwargs):
  if isinstance(a, _Records):
    return a.argsort(kwargs.get('order'))
  return _np_argsort(a, *args, **kwargs)


patch(np, 'argsort', _argsort)


@functools.wraps(_np_asarray)
def _asarray(obj, *args, **kwargs):
  if isinstance(obj, (list, tuple)) and _has_sym(obj):
    return _array(obj, *args, **kwargs)
  if isinstance(obj, arr.SymArray) and obj.dtype.kind in 'fmM':
    dt = args[0] if args else kwargs.get('dtype')
    if dt is None and obj.dtype.kind in 'mM' and obj._try_concrete() is None:
      return obj
    if dt is not None and np.dtype(dt).kind == obj.dtype.kind and obj._try_concrete() is None:
      return obj if np.dtype(dt) == obj.dtype else obj.astype(dt)
  return _np_asarray(obj, *args, **kwargs)


patch(np, 'array', _array)
patch(np, 'asarray', _asarray)


# -- np.vectorize: loop over the leading dimensions -----------------------------
_o_vectorize = np.vectorize


class _Vectorize(_o_vectorize):

  def __call__(self, *args, **kwargs):
    if not any(isinstance(a, arr.SymArray) for a in args) or kwargs or not self.signature:
      return super().__call__(*args, **kwargs)
    ins, outs = self.signature.split('->')
    core_of = lambda s: [[d for d in g.split(',') if d] for g in
                         s.replace(' ', '').strip()[1:-1].split('),(')]
    ins, outs = core_of(ins), core_of(outs)
    args = [arr.lift(a) for a in args]
    lead = [a.shape[:a.ndim - len(c)] for a, c in zip(args, ins)]
    shape = np.broadcast_shapes(*lead)
    args = [np.broadcast_to(a, shape + a.shape[len(l):]) for a, l in zip(args, lead)]
    res = []
    for i in np.ndindex(*shape):
      r = self.pyfunc(*[a[i] if shape else a for a in args])
      res.append(r if isinstance(r, tuple) else (r,))
    final = []
    for k in range(len(outs)):
      st = np.stack([arr.lift(r[k]) for r in res])
      final.append(st.reshape(shape + st.shape[1:]))
    return final[0] if len(final) == 1 else tuple(final)


patch(np, 'vectorize', _Vectorize)


# -- scipy.ndimage.convolve1d ----------------------------------------------------
import scipy.ndimage as _ndi

_o_conv1d = _ndi.convolve1d


def _snap(x):
  """A single precision kernel entry stands for the small fraction it rounds."""
  q = Fraction(float(x))
  r = q.limit_denominator(1000)
  return r if isinstance(x, np.float32) and abs(q - r) < Fraction(1, 10**7) else q


def _convolve1d(input, weights, axis=-1, output=None, mode='reflect', cval=0.0, origin=0):
  if not isinstance(input, arr.SymArray):
    return _o_conv1d(input, weights, axis, output, mode, cval, origin)
  if mode != 'wrap' or origin != 0 or output is not None:
    raise core.Unsupported('convolve1d options')
  w = [_snap(x) for x in np.asarray(weights)]
  k, n = len(w), input.shape[axis]
  # scipy centres an odd kernel of length k; convolution flips it
  x = np.moveaxis(input, axis, 0)
  out = None
  rows = []
  for i in range(n):
    acc = None
    for j in range(k):
      t = x[(i + k // 2 - j) % n] * arr.from_obj(np.asarray(core.F(w[j]), dtype=object))
      acc = t if acc is None else acc + t
    rows.append(acc)
  return np.moveaxis(np.stack(rows), 0, axis).astype(input.dtype)


patch(_ndi, 'convolve1d', _convolve1d)


# -- .values keeps symbolic data ------------------------------------------------
_o_item = _variable._as_array_or_item


def _as_array_or_item(data):
  if isinstance(data, indexing.PandasIndexingAdapter):
    d = data.get_duck_array()
    if isinstance(d, arr.SymArray):
      data = d
  if isinstance(data, arr.SymArray):
    c = data._try_concrete()
    if c is None:
      return data
  return _o_item(data)


patch(_variable, '_as_array_or_item', _as_array_or_item)


# -- coordinates with symbolic values become object indexes --------------------
from xarray.core import indexes as _indexes
import pandas as _pd

_o_cast = _indexes.safe_cast_to_index
_o_conv = _variable._possibly_convert_objects
_o_scalar = indexing.PandasIndexingAdapter._convert_scalar


def _safe_cast_to_index(array):
  d = array
  if isinstance(d, (xr.DataArray, xr.Variable)):
    d = d.data if not isinstance(getattr(d, 'variable', d)._data, indexing.PandasIndexingAdapter) else None
  if isinstance(d, arr.SymArray) and d.ndim == 1 and d._try_concrete() is None:
    out = np.empty(d.shape, dtype=object)
    for i, x in enumerate(d.data):
      out[i] = x if isinstance(x, (core.F, core.I)) else core.B(x)
    return _pd.Index(out, dtype=object)
  return _o_cast(array)


def _possibly_convert_objects(values):
  if isinstance(values, arr.SymArray):
    return values
  return _o_conv(values)


def _convert_scalar(self, item):
  if isinstance(item, (core.F, core.I, core.B)):
    o = np.empty((), dtype=object)
    o[()] = item.b if isinstance(item, core.B) else item
    return arr.SymArray(o, np.dtype(self.dtype))
  return _o_scalar(self, item)


patch(_indexes, 'safe_cast_to_index', _safe_cast_to_index)
patch(_variable, '_possibly_convert_objects', _possibly_convert_objects)
patch(indexing.PandasIndexingAdapter, '_convert_scalar', _convert_scalar)
for _m in (_variable, indexing):
  if hasattr(_m, 'safe_cast_to_index'):
    patch(_m, 'safe_cast_to_index', _safe_cast_to_index)


_o_pi_init = _indexes.PandasIndex.__init__


def _pi_init(self, array, dim, coord_dtype=None, **kw):
  d = array.data if isinstance(array, xr.Variable) else array
  if coord_dtype is None and isinstance(d, arr.SymArray):
    coord_dtype = d.dtype
  _o_pi_init(self, array, dim, coord_dtype, **kw)


patch(_indexes.PandasIndex, '__init__', _pi_init)


# -- label based selection with symbolic labels or symbolic index values --------
_o_sel = _indexes.PandasIndex.sel
_o_isel = _indexes.PandasIndex.isel
_o_index_get = indexing.PandasIndexingAdapter._index_get


def _issym(x):
  return isinstance(x, arr.SymArray) and x._try_concrete() is None


def _index_values(index, dtype):
  """SymArray of the labels of a pandas index, or None when they are concrete."""
  if index.dtype == object and len(index) and any(
      isinstance(x, (core.F, core.I, core.B)) for x in index):
    out = np.empty(len(index), dtype=object)
    for i, x in enumerate(index):
      out[i] = x.b if isinstance(x, core.B) else x
    return arr.SymArray(out, np.dtype(dtype))
  return None


def _label_data(label):
  if isinstance(label, (xr.DataArray, xr.Variable)):
    v = label.variable if isinstance(label, xr.DataArray) else label
    d = v._data
    if isinstance(d, indexing.PandasIndexingAdapter):
      d = d.get_duck_array()
    return v.data if not isinstance(d, arr.SymArray) else d
  if isinstance(label, (list, tuple)) and _has_sym(label):
    return _stack(label)
  if isinstance(label, (core.F, core.I, core.B)):
    return arr.lift(label)
  return label


def _find(vals, lab, method, tolerance, name):
  """Integer positions (SymArray) of labels in an index; KeyError by forking."""
  c = core
  n = vals.shape[0]
  flat = lab.reshape((-1,))
  eq = np.equal(flat.reshape((-1, 1)), vals.reshape((1, -1)))
  eq = arr.lift(eq).data
  br = c.ctx().branch
  if _issym(vals):
    dup = False
    ve = arr.lift(np.equal(vals.reshape((-1, 1)), vals.reshape((1, -1)))).data
    for i in range(n):
      for j in range(i):
        dup = c.b_or(dup, ve[i, j])
    if br(dup):
      raise _pd.errors.InvalidIndexError('Reindexing only valid with uniquely valued Index objects')
  pos = np.empty(flat.shape, dtype=object)
  found = True
  if method is not None:
    inc = arr.lift(np.less(vals[:-1], vals[1:])).data
    alli = True
    for b in inc:
      alli = c.b_and(alli, b)
    inc_ = br(alli)
    if not inc_:
      dec = arr.lift(np.greater(vals[:-1], vals[1:])).data
      alld = True
      for b in dec:
        alld = c.b_and(alld, b)
      if not br(alld):
        raise ValueError('index must be monotonic increasing or decreasing')
    before = (np.less if inc_ else np.greater)(vals.reshape((1, -1)), flat.reshape((-1, 1)))
    before = arr.lift(before).data
    dist = arr.lift(np.absolute(vals.reshape((1, -1)) - flat.reshape((-1, 1))))
    dk = np.dtype(dist.dtype).kind
  for k in range(flat.shape[0]):
    idx = -1
    for i in range(n - 1, -1, -1):
      idx = c.i_ite(eq[k, i], i, idx)
    exact = c.b_not(c.i_eq(idx, -1))
    if method is not None:
      nb = 0
      for i in range(n):
        nb = c.i_add(nb, c.i_ite(before[k, i], 1, 0))
      pad = c.i_ite(exact, idx, c.i_sub(nb, 1))
      back = c.i_ite(exact, idx, c.i_ite(c.i_eq(nb, n), -1, nb))
      if method in ('pad', 'ffill'):
        idx = pad
      elif method in ('backfill', 'bfill'):
        idx = back
      elif method == 'nearest':
        def at(ix):
          a = dist.data[k, n - 1]
          for t in range(n - 2, -1, -1):
            a = arr._e_ite(c.i_eq(ix, t), dist.data[k, t], a, arr.kind(dist.dtype))
          o = np.empty((), dtype=object)
          o[()] = a
          return arr.SymArray(o, dist.dtype)
        closer = arr.lift((np.less if inc_ else np.less_equal)(at(pad), at(back))).data[()]
        left = c.b_or(c.i_eq(back, -1), c.b_and(c.b_not(c.i_eq(pad, -1)), closer))
        idx = c.i_ite(left, pad, back)
      else:
        raise c.Unsupported(f'sel method {method}')
      if tolerance is not None:
        d = dist.data[k, n - 1]
        for t in range(n - 2, -1, -1):
          d = arr._e_ite(c.i_eq(idx, t), dist.data[k, t], d, arr.kind(dist.dtype))
        o = np.empty((), dtype=object)
        o[()] = d
        far = arr.lift(np.greater(arr.SymArray(o, dist.dtype), arr.lift(tolerance))).data[()]
        idx = c.i_ite(far, -1, idx)
    found = c.b_and(found, c.b_not(c.i_eq(idx, -1)))
    pos[k] = c.I(idx)
  if not br(found):
    raise KeyError(f'not all values found in index {name!r}')
  return arr.SymArray(pos, _i8).reshape(lab.shape)


def _slice_bounds(vals, label):
  """Positions of a label slice on a monotonic index (labels inclusive)."""
  c = core
  n = vals.shape[0]
  br = c.ctx().branch
  if label.step is not None:
    raise c.Unsupported('label slice with a step')
  def allb(x):
    r = True
    for b in arr.lift(x).data:
      r = c.b_and(r, b)
    return r
  inc_ = br(allb(np.less_equal(vals[:-1], vals[1:])))
  if not inc_ and not br(allb(np.greater_equal(vals[:-1], vals[1:]))):
    raise KeyError('Cannot get left slice bound for non-monotonic index')
  def count(op, x):
    x = arr.lift(_label_data(x))
    x = x.reshape(()) if x.ndim else x
    t = 0
    for b in arr.lift(op(vals, x)).data:
      t = c.i_add(t, c.i_ite(b, 1, 0))
    return c.ctx().concretize_int(t)
  lo = 0 if label.start is None else count(np.less if inc_ else np.greater, label.start)
  hi = n if label.stop is None else count(np.less_equal if inc_ else np.greater_equal, label.stop)
  return slice(lo, hi)


def _sel(self, labels, method=None, tolerance=None):
  (name, label), = labels.items()
  if isinstance(self.index, _pd.MultiIndex):
    return _o_sel(self, labels, method, tolerance)
  vals = _index_values(self.index, self.coord_dtype)
  if isinstance(label, slice):
    bounds = [_label_data(x) for x in (label.start, label.stop)]
    if vals is None and not any(_issym(b) for b in bounds):
      if any(isinstance(b, arr.SymArray) for b in bounds):
        bounds = [np.asarray(b)[()] if isinstance(b, arr.SymArray) else b for b in bounds]
        labels = {name: slice(*bounds, label.step)}
      return _o_sel(self, labels, method, tolerance)
    if vals is None:
      vals = arr.lift(np.asarray(self.index, dtype=self.coord_dtype))
    return _indexes.IndexSelResult({self.dim: _slice_bounds(vals, label)})
  lab = _label_data(label)
  if vals is None and not _issym(lab):
    if isinstance(lab, arr.SymArray):
      k = np.asarray(lab)
      label = (label.copy(data=k) if isinstance(label, (xr.DataArray, xr.Variable)) else k)
      labels = {name: label}
    return _o_sel(self, labels, method, tolerance)
  if vals is None:
    vals = arr.lift(np.asarray(self.index, dtype=self.coord_dtype))
  lab = arr.lift(np.asarray(lab) if isinstance(lab, (list, tuple)) else lab)
  if lab.dtype.kind == 'b' and vals.dtype.kind != 'b':
    idx = np.asarray(lab)
  else:
    idx = _find(vals, lab, method, tolerance, name)
  if idx.ndim == 0:
    idx = int(idx)
    if isinstance(label, xr.Variable):
      idx = xr.Variable((), idx)
    elif isinstance(label, xr.DataArray):
      idx = xr.DataArray(idx, coords=label._coords, dims=())
  elif isinstance(label, xr.Variable):
    idx = xr.Variable(label.dims, idx)
  elif isinstance(label, xr.DataArray):
    idx = xr.DataArray(idx, coords=label._coords, dims=label.dims)
  elif idx.ndim == 1:
    idx = xr.Variable((self.dim,), idx)
  return _indexes.IndexSelResult({self.dim: idx})


def _obj_index(a, name=None):
  out = np.empty(a.shape, dtype=object)
  for i, x in enumerate(a.data):
    out[i] = x if isinstance(x, (core.F, core.I)) else core.B(x)
  return _pd.Index(out, dtype=object, name=name)


def _take_index(index, dtype, key):
  vals = _index_values(index, dtype)
  if vals is None:
    vals = arr.lift(np.asarray(index, dtype=dtype))
  return vals[key]


def _isel(self, indexers):
  k = indexers[self.dim]
  if isinstance(k, xr.Variable) and k.dims == (self.dim,):
    k = k.data
  if _issym(k) and k.ndim == 1:
    r = _take_index(self.index, self.coord_dtype, k)
    return self._replace(_obj_index(r, self.index.name))
  if isinstance(k, arr.SymArray):
    indexers = dict(indexers)
    indexers[self.dim] = np.asarray(k) if k.ndim else int(k)
  return _o_isel(self, indexers)


def _index_get(self, indexer, func_name):
  key = indexer.tuple
  if len(key) == 1 and isinstance(key[0], arr.SymArray):
    if _issym(key[0]):
      r = _take_index(self.array, self.dtype, key[0])
      if r.ndim == 1:
        return type(self)(_obj_index(r), dtype=self.dtype)
      return r
    indexer = type(indexer)((np.asarray(key[0]),))
    key = indexer.tuple
  if len(key) == 1 and getattr(key[0], 'ndim', 0) > 1:
    vals = _index_values(self.array, self.dtype)
    if vals is not None:
      return vals[key[0]]
  return _o_index_get(self, indexer, func_name)


patch(_indexes.PandasIndex, 'sel', _sel)
patch(_indexes.PandasIndex, 'isel', _isel)
patch(indexing.PandasIndexingAdapter, '_index_get', _index_get)

_o_np_get = {n: getattr(indexing.NumpyIndexingAdapter, n)
             for n in ('_oindex_get', '_vindex_get', '__getitem__')}


def _np_get(name):
  o = _o_np_get[name]
  def get(self, indexer):
    key = getattr(indexer, 'tuple', None)
    if key is not None and isinstance(self.array, np.ndarray) and any(_issym(k) for k in key):
      return o(indexing.as_indexable(arr.lift(self.array)), indexer)
    return o(self, indexer)
  return get


for _n in _o_np_get:
  patch(indexing.NumpyIndexingAdapter, _n, _np_get(_n))


# -- interpolation (xarray hands the numbers to scipy) ---------------------------
from xarray.core import missing as _missing

_o_interpnd = _missing._interpnd


def _interval(x, q, left):
  """Index of the cell used for a query, by forking, and q's position in it.

  left: scipy.interp1d's convention (x[i] < q <= x[i+1]); otherwise interpn's
  (x[i] <= q < x[i+1]). The outer cells extend to infinity.
  """
  br = core.ctx().branch
  for i in range(len(x) - 2):
    nxt = core.lift_f(float(x[i + 1]))
    if br((core.f_le if left else core.f_lt)(q, nxt)):
      return i
  return len(x) - 2


def _interpnd(data, *coords, interp_func, interp_kwargs, result_coord_core_dims):
  if not any(_issym(a) for a in (data,) + coords):
    lifted = any(isinstance(a, arr.SymArray) for a in (data,) + coords)
    data, *coords = (np.asarray(a) if isinstance(a, arr.SymArray) else a for a in (data, *coords))
    r = _o_interpnd(data, *coords, interp_func=interp_func, interp_kwargs=interp_kwargs,
                    result_coord_core_dims=result_coord_core_dims)
    return arr.lift(np.asarray(r)) if lifted else r
  c = core
  n = len(coords) // 2
  method = interp_kwargs.get('method')
  one = n == 1
  if method not in ('linear', 'nearest') or (
      one and interp_func is not _missing.ScipyInterpolator):
    raise c.Unsupported(f'interpolation {method}')
  xs = []
  for x in coords[:n]:
    if _issym(x):
      raise c.Unsupported('interpolation from symbolic coordinates')
    x = np.asarray(x).astype(float)
    if len(x) < 2 or not (np.diff(x) > 0).all():
      raise c.Unsupported('interpolation grid')
    xs.append(x)
  fill = interp_kwargs.get('fill_value', None if one else np.nan)
  if one:
    extrapolate = fill == 'extrapolate' if isinstance(fill, str) else False
    if fill is not None and not extrapolate:
      raise c.Unsupported('fill_value')
  else:
    extrapolate = fill is None
    if fill is not None and not np.isnan(fill):
      raise c.Unsupported('fill_value')
  new_x = xr.core.variable.broadcast_variables(*(
      xr.Variable(d, arr.lift(q if isinstance(q, arr.SymArray) else np.asarray(q)))
      for d, q in zip(result_coord_core_dims, coords[n:])))
  shape = new_x[0].shape
  qs = [arr.lift(v.data).astype(np.dtype('f8')).data.reshape(-1) for v in new_x]
  data = arr.lift(data)
  if data.dtype.kind != 'f':
    data = data.astype(np.dtype('f8'))
  lead = data.shape[:data.ndim - n]
  br = c.ctx().branch
  cols = []
  for p in range(len(qs[0])):
    q = [c.lift_f(v[p]) for v in qs]
    if br(c.b_or(*[x.nan for x in q])):
      if not one or method == 'linear':
        cols.append(None)
        continue
      raise c.Unsupported('nearest neighbour of NaN')
    outside = c.b_or(*[c.b_or(c.f_lt(x, c.lift_f(float(g[0]))), c.f_lt(c.lift_f(float(g[-1])), x))
                       for x, g in zip(q, xs)])
    if not extrapolate and br(outside):
      cols.append(None)
      continue
    cell = [_interval(g, x, one) for g, x in zip(xs, q)]
    w = [c.f_div(c.f_sub(x, c.lift_f(float(g[i]))), c.lift_f(Fraction(float(g[i + 1])) - Fraction(float(g[i]))))
         for x, g, i in zip(q, xs, cell)]
    if method == 'nearest':
      near = tuple(i if br(c.f_le(v, c.lift_f(Fraction(1, 2)))) else i + 1 for v, i in zip(w, cell))
      cols.append(data[(Ellipsis,) + near])
      continue
    acc = None
    for corner in np.ndindex(*(2,) * n):
      wt = c.ONE
      for k, v in zip(corner, w):
        wt = c.f_mul(wt, v if k else c.f_sub(c.ONE, v))
      d = data[(Ellipsis,) + tuple(i + k for i, k in zip(cell, corner))]
      o = np.empty((), dtype=object)
      o[()] = wt
      t = arr.lift(d) * arr.from_obj(o)
      acc = t if acc is None else acc + t
    cols.append(acc)
  nan = arr.lift(np.full(lead, np.nan))
  cols = [nan if x is None else arr.lift(x) for x in cols]
  if not cols:
    return arr.lift(np.zeros(lead + shape))
  out = np.stack(cols, axis=-1)
  return out.reshape(lead + shape).astype(data.dtype)


patch(_missing, '_interpnd', _interpnd)


# -- isinstance(x, np.ndarray) in the code under test -----------------------
import sys as _sys
import types as _types


class _NdMeta(type):

  def __instancecheck__(cls, x):
    return isinstance(x, (np.ndarray, arr.SymArray))

  def __subclasscheck__(cls, c):
    return issubclass(c, (np.ndarray, arr.SymArray))

  def __getattr__(cls, name):
    return getattr(np.ndarray, name)


class _Nd(metaclass=_NdMeta):

  def __new__(cls, *a, **k):
    return np.ndarray(*a, **k)


class _NpProxy(_types.ModuleType):
  """numpy as the code under test sees it: a SymArray is an ndarray."""

  ndarray = _Nd

  def __getattr__(self, name):
    return getattr(np, name)


def _symbolic_buffer(name):
  """Arrays the code under test allocates and may then fill with symbols."""
  def make(*args, **kwargs):
    out = getattr(np, name)(*args, **kwargs)
    if not enabled() or not core.has_ctx() or type(out) is not np.ndarray or out.dtype.kind not in 'fiubmM':
      return out
    if name.startswith('empty'):
      out = np.full(out.shape, np.nan if out.dtype.kind == 'f' else 0).astype(out.dtype)
    return arr.lift(out)
  return make


for _n in ('empty', 'zeros', 'ones', 'full', 'empty_like', 'zeros_like', 'ones_like', 'full_like'):
  setattr(_NpProxy, _n, staticmethod(_symbolic_buffer(_n)))


np_proxy = _NpProxy('numpy')


def adapt_modules(prefixes=('weatherbenchX', 'public_benchmark')):
  for name, mod in list(_sys.modules.items()):
    if name.split('.')[0] in prefixes and mod is not None:
      for k, v in list(vars(mod).items()):
        if v is np:
          setattr(mod, k, np_proxy)
