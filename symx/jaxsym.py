"""Symbolic execution of JAX code (used by statistical_inference.autodiff).

`jax.linearize(f, *primals)` with symbolic primals is encoded by asking the
real JAX for the jaxpr of the forward-mode derivative of the real `f`
(`jax.make_jaxpr` of `jax.jvp`; only shapes and dtypes are needed), and by
interpreting that jaxpr on symbolic cells.  The linear map it returns is the
jaxpr with the primals fixed; `jax.vmap` of it evaluates it slice by slice.
The differentiation rules are therefore JAX's own; the primitives (add, mul,
div, sqrt, select_n, ...) are the ones symx interprets.
"""
import contextlib
import numpy as np
import jax
import jax.numpy as jnp
from . import arr, core, patches
from .arr import SymArray, lift
from .core import Unsupported

jax.config.update('jax_enable_x64', True)


def _np_index_trick(prim, params, ops):
  """Structural primitives: apply the real one to integer positions."""
  x = lift(ops[0])
  flat = x.data.ravel()
  rest = [np.asarray(o) if not isinstance(o, SymArray) else np.asarray(o)
          for o in ops[1:]]
  idx = np.arange(flat.size).reshape(x.shape)
  pos = np.asarray(prim.bind(jnp.asarray(idx), *[jnp.asarray(r) for r in rest],
                             **params))
  out = np.empty(pos.shape, dtype=object)
  for i in np.ndindex(pos.shape):
    out[i] = flat[pos[i]] if 0 <= pos[i] < flat.size else core.NAN
  return SymArray(out, x.dtype)


_BIN = {
    'add': np.add, 'add_any': np.add, 'sub': np.subtract, 'mul': np.multiply,
    'div': np.true_divide, 'max': np.maximum, 'min': np.minimum,
    'lt': np.less, 'le': np.less_equal, 'gt': np.greater,
    'ge': np.greater_equal, 'eq': np.equal, 'ne': np.not_equal,
    'and': np.logical_and, 'or': np.logical_or, 'pow': np.power,
    'atan2': np.arctan2, 'rem': np.fmod,
}
_UN = {
    'neg': np.negative, 'sqrt': np.sqrt, 'exp': np.exp, 'log': np.log,
    'log1p': np.log1p, 'expm1': np.expm1, 'abs': np.abs, 'sign': np.sign,
    'not': np.logical_not, 'is_finite': np.isfinite, 'sin': np.sin,
    'cos': np.cos, 'tan': np.tan, 'tanh': np.tanh, 'floor': np.floor,
    'ceil': np.ceil, 'square': np.square, 'copy': lambda x: x,
    'copy_p': lambda x: x, 'stop_gradient': lambda x: x, 'cbrt': np.cbrt,
    'exp2': lambda x: np.exp(x * np.log(2.0)),
}
_CALLS = ('pjit', 'jit', 'closed_call', 'core_call', 'custom_jvp_call',
          'custom_vjp_call', 'remat', 'checkpoint', 'remat2')
_STRUCT = ('gather', 'dynamic_slice', 'rev', 'pad')


def _broadcast_in_dim(x, shape, dims):
  new = [1] * len(shape)
  for i, d in enumerate(dims):
    new[d] = np.shape(x)[i]
  return np.broadcast_to(np.reshape(x, new), shape)


def _eqn(prim, params, ops):
  n = prim.name
  if n in _BIN:
    if n == 'div' and all(np.dtype(_dt(o)).kind in 'iu' for o in ops):
      raise Unsupported('integer division in jaxpr')
    return _BIN[n](*ops)
  if n in _UN:
    return _UN[n](ops[0])
  if n == 'rsqrt':
    return np.true_divide(1.0, np.sqrt(ops[0]))
  if n == 'integer_pow':
    y = params['y']
    return np.power(ops[0], y) if y >= 0 else 1.0 / np.power(ops[0], -y)
  if n == 'broadcast_in_dim':
    return _broadcast_in_dim(ops[0], params['shape'],
                             params['broadcast_dimensions'])
  if n in ('reshape',):
    return np.reshape(ops[0], params['new_sizes'])
  if n == 'squeeze':
    return np.squeeze(ops[0], axis=tuple(params['dimensions']))
  if n == 'expand_dims':
    return np.expand_dims(ops[0], tuple(params['dimensions']))
  if n == 'transpose':
    return np.transpose(ops[0], params['permutation'])
  if n == 'slice':
    st = params['strides'] or (1,) * len(params['start_indices'])
    return ops[0][tuple(slice(a, b, c) for a, b, c in zip(
        params['start_indices'], params['limit_indices'], st))]
  if n == 'concatenate':
    return np.concatenate([lift(o) for o in ops], axis=params['dimension'])
  if n == 'select_n':
    which, *cases = ops
    if np.dtype(_dt(which)).kind != 'b' or len(cases) != 2:
      raise Unsupported('select_n with an integer selector')
    return np.where(which, cases[1], cases[0])
  if n == 'clamp':
    return np.minimum(np.maximum(ops[1], ops[0]), ops[2])
  if n == 'reduce_sum':
    return np.sum(ops[0], axis=tuple(params['axes']))
  if n == 'reduce_max':
    return np.max(ops[0], axis=tuple(params['axes']))
  if n == 'reduce_min':
    return np.min(ops[0], axis=tuple(params['axes']))
  if n == 'reduce_prod':
    return np.prod(ops[0], axis=tuple(params['axes']))
  if n == 'reduce_and':
    return np.all(ops[0], axis=tuple(params['axes']))
  if n == 'reduce_or':
    return np.any(ops[0], axis=tuple(params['axes']))
  if n == 'cumsum':
    x = ops[0]
    if params.get('reverse'):
      raise Unsupported('reverse cumsum')
    return np.cumsum(x, axis=params['axis'])
  if n == 'convert_element_type':
    x = ops[0]
    return (x if isinstance(x, SymArray) else np.asarray(x)).astype(
        np.dtype(params['new_dtype']))
  if n == 'dot_general':
    (lc, rc), (lb, rb) = params['dimension_numbers']
    a, b = ops
    la, rr = iter('abcdefghijklm'), iter('nopqrstuvwxyz')
    ls = [next(la) for _ in range(np.ndim(a))]
    rs = [next(rr) for _ in range(np.ndim(b))]
    for i, j in zip(lc, rc):
      rs[j] = ls[i]
    for i, j in zip(lb, rb):
      rs[j] = ls[i]
    out = ([ls[i] for i in lb]
           + [l for i, l in enumerate(ls) if i not in lc and i not in lb]
           + [r for j, r in enumerate(rs) if j not in rc and j not in rb])
    return np.einsum(f'{"".join(ls)},{"".join(rs)}->{"".join(out)}', a, b)
  if n in ('device_put', 'copy', 'optimization_barrier', 'sharding_constraint'):
    return ops[0] if len(ops) == 1 else list(ops)
  if n == 'iota':
    sh, d = params['shape'], params['dimension']
    v = np.arange(sh[d]).reshape([-1 if i == d else 1 for i in range(len(sh))])
    return np.broadcast_to(v, sh).astype(np.dtype(params['dtype']))
  if n in _STRUCT:
    return _np_index_trick(prim, params, ops)
  raise Unsupported(f'jaxpr primitive {n}')


def _dt(x):
  return x.dtype if hasattr(x, 'dtype') else np.asarray(x).dtype


def _conc(x):
  """Constants out of jax."""
  return x if isinstance(x, SymArray) else np.asarray(x)


def eval_jaxpr(jaxpr, consts, args):
  env = {}

  def read(v):
    if hasattr(v, 'val'):
      return np.asarray(v.val)
    return env[v]

  for v, x in zip(jaxpr.constvars, consts):
    env[v] = _conc(x)
  for v, x in zip(jaxpr.invars, args):
    env[v] = x
  for e in jaxpr.eqns:
    ops = [read(v) for v in e.invars]
    name = e.primitive.name
    if name in _CALLS:
      inner = e.params.get('jaxpr', e.params.get('call_jaxpr'))
      if hasattr(inner, 'jaxpr'):
        outs = eval_jaxpr(inner.jaxpr, inner.consts, ops)
      else:
        outs = eval_jaxpr(inner, [], ops)
    elif not any(isinstance(o, SymArray) for o in ops) and name not in (
        'iota', 'device_put'):
      r = e.primitive.bind(*[jnp.asarray(o) for o in ops], **e.params)
      outs = [np.asarray(x) for x in (r if e.primitive.multiple_results else [r])]
    else:
      with np.errstate(all='ignore'):
        r = _eqn(e.primitive, e.params, ops)
      outs = r if isinstance(r, list) else [r]
    for v, x in zip(e.outvars, outs):
      env[v] = x
  return [read(v) for v in jaxpr.outvars]


class Linear:
  """The linear map returned by the symbolic linearize."""

  def __init__(self, closed, in_tree, out_tree, primals):
    self.closed, self.in_tree, self.out_tree = closed, in_tree, out_tree
    self.primals = primals

  def _flat(self, tangents):
    flat, tree = jax.tree_util.tree_flatten(tangents)
    flat = [np.asarray(x) if isinstance(x, jax.Array) else x for x in flat]
    if tree != self.in_tree:
      raise TypeError('tangents do not match the structure of the primals')
    return flat

  def __call__(self, *tangents):
    flat = self._flat(tangents)
    for p, t in zip(self.primals, flat):
      if p.shape != t.shape:
        raise TypeError('tangent shape differs from primal shape')
    outs = eval_jaxpr(self.closed.jaxpr, self.closed.consts,
                      self.primals + flat)
    outs = outs[len(outs) // 2:]
    return jax.tree_util.tree_unflatten(self.out_tree, [lift(o) for o in outs])


class JaxProxy:
  """Stand-in for the module `jax` inside a module under test."""

  def __init__(self, real):
    self._real = real

  def __getattr__(self, name):
    return getattr(self._real, name)

  def linearize(self, f, *primals, **kw):
    flat, tree = jax.tree_util.tree_flatten(primals)
    flat = [lift(np.asarray(x) if isinstance(x, jax.Array) else x)
            for x in flat]
    avals = [jax.ShapeDtypeStruct(x.shape, _float_dt(x.dtype)) for x in flat]
    seen = {}

    def g(ps, ts):
      p = jax.tree_util.tree_unflatten(tree, ps)
      t = jax.tree_util.tree_unflatten(tree, ts)
      y, dy = jax.jvp(f, p, t)
      fy, seen['tree'] = jax.tree_util.tree_flatten(y)
      return fy + jax.tree_util.tree_leaves(dy)

    with real_numpy():
      closed = jax.make_jaxpr(g)(avals, avals)
    zero = [arr.from_np(np.zeros(x.shape)) for x in flat]
    outs = eval_jaxpr(closed.jaxpr, closed.consts, flat + zero)
    vals = jax.tree_util.tree_unflatten(
        seen['tree'], [lift(o) for o in outs[:len(outs) // 2]])
    return vals, Linear(closed, tree, seen['tree'], flat)

  def vmap(self, fn, in_axes=0, out_axes=0, **kw):
    if not isinstance(fn, Linear):
      return self._real.vmap(fn, in_axes=in_axes, out_axes=out_axes, **kw)

    def mapped(*args):
      flat, tree = jax.tree_util.tree_flatten(args)
      ax = in_axes
      if not isinstance(ax, int):
        raise Unsupported('vmap in_axes')
      flat = [np.asarray(x) if isinstance(x, jax.Array) else x for x in flat]
      n = {np.shape(x)[ax] for x in flat}
      if len(n) != 1:
        raise ValueError('vmap got inconsistent sizes for array axes to be '
                         f'mapped: {sorted(n)}')
      outs = []
      for i in range(n.pop()):
        sl = [lift(np.take(x, i, axis=ax)) for x in flat]
        outs.append(fn(*jax.tree_util.tree_unflatten(tree, sl)))
      fo = [jax.tree_util.tree_flatten(o)[0] for o in outs]
      otree = jax.tree_util.tree_structure(outs[0])
      return jax.tree_util.tree_unflatten(
          otree, [np.stack([lift(o[k]) for o in fo], axis=out_axes)
                  for k in range(len(fo[0]))])
    return mapped


class JnpProxy:
  def __init__(self, real):
    self._real = real

  def __getattr__(self, name):
    return getattr(self._real, name)

  def array(self, x, *a, **k):
    if isinstance(x, SymArray):
      return x
    return self._real.array(x, *a, **k)

  asarray = array


def _float_dt(dt):
  dt = np.dtype(dt)
  return dt


@contextlib.contextmanager
def real_numpy():
  """Trace the code under test with symx's patches switched off."""
  on = patches.enabled()
  if on:
    patches.disable()
  try:
    yield
  finally:
    if on:
      patches.enable()


def install(module):
  """Patch the `jax` and `jnp` globals of a module under test."""
  patches.patch(module, 'jax', JaxProxy(jax))
  patches.patch(module, 'jnp', JnpProxy(jnp))
