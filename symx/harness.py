"""Harness context: one harness runs symbolically, concretely, or shadowed."""
import contextlib
from fractions import Fraction
import json
import os
import random
import sys
import time
import traceback
import numpy as np
import xarray as xr
import z3
from . import arr, core, patches, ratfun
from .arr import SymArray, lift
from .core import (B, F, I, Inconclusive, NAN, PathInfeasible, Unsupported, b_and,
                   b_not, b_or, b_z, is_c, is_k, lift_f)

TOL = Fraction(1, 10**6)


class AssumeFailed(Exception):
  pass


class Violation(Exception):
  def __init__(self, label, inputs, detail=''):
    super().__init__(label)
    self.label, self.inputs, self.detail = label, inputs, detail


def cells(x):
  """Object ndarray of F / bool / I cells of an array-like (both modes)."""
  if isinstance(x, (xr.DataArray, xr.Variable)):
    x = x.data
  if not isinstance(x, SymArray):
    x = np.asarray(x)
  return lift(x).data


def ite(c, a, b):
  c = core.to_b(c)
  if isinstance(a, F) or isinstance(b, F):
    return core.f_ite(c, lift_f(a), lift_f(b))
  return core.f_ite(c, lift_f(a), lift_f(b))


class H:
  """mode: 'sym' | 'conc' (real numpy values) | 'shadow' (const SymArrays)."""

  def __init__(self, mode, values=None, rng=None):
    self.mode = mode
    self.values = values or {}
    self.rng = rng
    self.sig = {}
    self.outputs = []       # (label, actual cells) for shadow comparison
    self.failures = []      # conc mode
    self.claims = 0
    self.cells_checked = 0
    self.skipped = 0
    self.assumed = []
    self.on_claim = None
    self.samples = []
    self.facts = []

  # -- inputs -------------------------------------------------------------
  def _input(self, name, kind, shape, dtype, **spec):
    shape = tuple(shape)
    prev = self.sig.get(name)
    if prev is not None:
      raise AssertionError(f'input {name} declared twice')
    self.sig[name] = dict(kind=kind, shape=shape, dtype=str(dtype), **spec)
    if self.mode == 'sym':
      return self._sym_input(name, kind, shape, dtype, spec)
    if name in self.values:
      v = self.values[name]
    else:
      v = self._random_input(kind, shape, spec)
      self.values[name] = v
    a = self._to_np(v, kind, shape, dtype)
    if self.mode == 'shadow':
      return arr.from_np(a)
    return a

  def _sym_input(self, name, kind, shape, dtype, spec):
    c = core.ctx()
    out = np.empty(shape, dtype=object)
    for i in np.ndindex(shape):
      nm = name + ''.join(f'_{j}' for j in i)
      if kind == 'float':
        v = z3.Real(nm)
        nan = z3.Bool(nm + '.nan') if spec.get('nan') else False
        if spec.get('lo') is not None:
          c.base.append(v >= core.r_z(Fraction(spec['lo'])))
        if spec.get('hi') is not None:
          c.base.append(v <= core.r_z(Fraction(spec['hi'])))
        if spec.get('lo') is not None or spec.get('hi') is not None:
          core.note_real(v, *[None if spec.get(q) is None else Fraction(spec[q])
                              for q in ('lo', 'hi')])
        out[i] = F(v, nan)
      elif kind == 'bool':
        out[i] = z3.Bool(nm)
      else:
        v = z3.Int(nm)
        if spec.get('lo') is not None:
          c.base.append(v >= spec['lo'])
        if spec.get('hi') is not None:
          c.base.append(v <= spec['hi'])
        if spec.get('lo') is not None and spec.get('hi') is not None:
          core.note_range(v, spec['lo'], spec['hi'])
        out[i] = I(v)
    c.inputs[name] = (kind, out)
    return SymArray(out, dtype)

  def _random_input(self, kind, shape, spec):
    r = self.rng
    out = np.empty(shape, dtype=object)
    for i in np.ndindex(shape):
      if kind == 'float':
        lo = spec.get('lo'); hi = spec.get('hi')
        lo = -4 if lo is None else float(lo)
        hi = 4 if hi is None else float(hi)
        if hi < lo:
          hi = lo + 4
        lo, hi = max(lo, -1000), min(hi, 1000)
        if spec.get('nan') and r.random() < 0.25:
          out[i] = 'nan'
        elif r.random() < 0.6:
          out[i] = Fraction(r.randint(int(np.ceil(lo * 2)), int(np.floor(hi * 2))), 2) \
              if np.ceil(lo * 2) <= np.floor(hi * 2) else Fraction(lo)
        else:
          out[i] = Fraction(lo) + Fraction(hi - lo) * Fraction(r.randint(0, 64), 64)
      elif kind == 'bool':
        out[i] = r.random() < 0.5
      else:
        lo = -4 if spec.get('lo') is None else spec['lo']
        hi = 4 if spec.get('hi') is None else spec['hi']
        out[i] = r.randint(lo, max(lo, hi))
    return out

  def _to_np(self, v, kind, shape, dtype):
    v = np.asarray(v, dtype=object).reshape(shape)
    if kind == 'float':
      a = np.empty(shape, np.float64)
      for i in np.ndindex(shape):
        a[i] = np.nan if v[i] == 'nan' else float(Fraction(v[i]))
      return a
    if kind == 'bool':
      return np.array(v, dtype=bool).reshape(shape)
    a = np.empty(shape, 'i8')
    for i in np.ndindex(shape):
      a[i] = int(v[i])
    return a.astype(dtype)

  def floats(self, name, shape=(), lo=None, hi=None, nan=False, dtype='f8'):
    return self._input(name, 'float', shape, np.dtype(dtype), lo=lo, hi=hi,
                       nan=nan)

  def bools(self, name, shape=()):
    return self._input(name, 'bool', shape, np.dtype(bool))

  def ints(self, name, shape=(), lo=None, hi=None, dtype='i8'):
    return self._input(name, 'int', shape, np.dtype(dtype), lo=lo, hi=hi)

  def choice(self, name, options):
    """Pick one of finitely many options; explored exhaustively by forking."""
    options = list(options)
    i = int(self.ints(name, (), 0, len(options) - 1))
    return options[i]

  def pick_int(self, name, lo, hi):
    return int(self.ints(name, (), lo, hi))

  # -- assumptions --------------------------------------------------------
  def assume(self, cond):
    c = self._cond(cond)
    if self.mode == 'sym':
      if c is False:
        raise PathInfeasible()
      if c is not True:
        core.ctx().base.append(c)
    elif c is not True:
      raise AssumeFailed()

  def _cond(self, cond):
    """Bool cell(s) -> single bool/BoolRef (conjunction)."""
    if isinstance(cond, B):
      return cond.b
    if is_c(cond) or isinstance(cond, z3.BoolRef):
      return cond
    if hasattr(cond, 'data') and hasattr(cond, 'dims'):
      cond = cond.data
    if isinstance(cond, (list, tuple)):
      return b_and(*[self._cond(x) for x in cond])
    return b_and(*[core.to_b(x) for x in lift(cond).astype(bool).data.ravel()])

  # -- claims -------------------------------------------------------------
  def check(self, label, cond):
    """Claim: cond holds."""
    c = self._cond(cond)
    self._claim(label, [b_not(c)], [b_not(c)], None, None)

  def eq(self, label, actual, expected, tol=TOL, unless=None):
    """Claim: cells equal (NaN == NaN), floats up to tol*(1+|expected|).

    unless: condition(s), one or one per cell, under which a cell is
    unspecified and not compared.
    """
    if actual is None:
      self._claim(label, [True], [True], None, None)
      return
    a, e = cells(actual), cells(expected)
    if a.shape != e.shape:
      if e.shape == () :
        e = np.broadcast_to(e, a.shape)
      else:
        self.fail(label, f'shape {a.shape} != {e.shape}')
        return
    exact, robust = [], []
    for x, y in zip(a.ravel(), e.ravel()):
      ex, ro = _differs(x, y, tol)
      exact.append(ex)
      robust.append(ro)
    if unless is not None:
      u = np.broadcast_to(np.asarray(unless, dtype=object), a.shape)
      a = a.copy()
      for i, (j, un) in enumerate(zip(np.ndindex(*a.shape), u.ravel())):
        un = core.to_b(un)
        exact[i] = b_and(exact[i], b_not(un))
        robust[i] = b_and(robust[i], b_not(un))
        if un is True:
          a[j] = None
    self.outputs.append((label, a))
    self._claim(label, exact, robust, a, e)

  def fail(self, label, detail=''):
    self._claim(label, [True], [True], None, None, detail)

  def true(self, label, pybool, detail=''):
    """Claim on a plain Python bool (structure), evaluated on this path."""
    if isinstance(pybool, (SymArray, B, z3.BoolRef)):
      return self.check(label, pybool)
    self._claim(label, [not bool(pybool)], [not bool(pybool)], None, None,
                detail)

  def _claim(self, label, exact, robust, a, e, detail=''):
    self.claims += 1
    self.cells_checked += len(exact)
    if self.mode == 'conc':
      bad = [i for i, r in enumerate(robust) if r is not False]
      if bad:
        d = detail
        if a is not None:
          i = bad[0]
          d = f'cell {i}: got {a.ravel()[i]!r}, expected {e.ravel()[i]!r}'
        self.failures.append((label, d))
      return
    if self.mode == 'shadow':
      return
    self.on_claim(self, label, exact, robust, detail)

  @contextlib.contextmanager
  def raises(self, label, exc):
    """Claim: the block raises exc on this path."""
    try:
      yield
    except exc:
      self.true(label, True)
      return
    except (PathInfeasible, Inconclusive, Unsupported, AssumeFailed, Violation):
      raise
    except Exception as ex:  # pylint: disable=broad-except
      self.fail(label, f'raised {type(ex).__name__}: {ex} instead of {exc}')
      return
    self.fail(label, f'no exception raised, expected {exc}')

  @property
  def sym(self):
    return self.mode in ('sym', 'shadow')

  def is_true(self, cond):
    """Branch on a condition in harness code (forks)."""
    c = self._cond(cond)
    if is_c(c):
      return c
    return core.ctx().branch(c)


def _differs(x, y, tol):
  """(exact, robust) 'differ' conditions of two cells."""
  if isinstance(x, F) or isinstance(y, F):
    x, y = lift_f(x), lift_f(y)
    flags = b_or(core.b_xor(x.nan, y.nan),
                 b_and(b_not(x.nan), b_not(y.nan),
                       b_or(core.b_xor(x.pinf, y.pinf),
                            core.b_xor(x.ninf, y.ninf))))
    fin = b_and(x.fin(), y.fin())
    d = core.r_sub(x.v, y.v)
    if not is_k(d):
      # polynomial identity (ites as atoms) settles most reorderings
      sd = z3.simplify(d, som=True)
      if z3.is_rational_value(sd):
        d = Fraction(sd.numerator_as_long(), sd.denominator_as_long())
      else:
        g = ratfun.identity(d, core.ctx())
        if g is not None:
          # equal wherever no denominator vanishes and no radicand is negative
          core.ctx().n_identities += 1
          c = b_and(fin, b_or(*g))
          d = Fraction(0)
          flags = b_or(flags, b_and(c, b_not(core.r_eq(x.v, y.v))))
    if is_k(d):
      exact = b_or(flags, False if d == 0 else fin)
    else:
      exact = b_or(flags, b_and(fin, b_not(core.r_eq(x.v, y.v))))
    if is_k(d) and is_k(y.v):
      big = abs(d) > tol * (1 + abs(y.v))
      robust = b_or(flags, b_and(fin, big))
    elif exact is False or (is_k(d) and d == 0):
      robust = flags
    else:
      dz, yz = core.r_z(d), core.r_z(y.v)
      t = core.r_z(tol)
      bound = z3.If(yz >= 0, t * (1 + yz), t * (1 - yz))
      robust = b_or(flags, b_and(fin, z3.Or(dz > bound, -dz > bound)))
    return exact, robust
  if isinstance(x, I) or isinstance(y, I):
    x = x if isinstance(x, I) else I(int(x))
    y = y if isinstance(y, I) else I(int(y))
    d = b_or(core.b_xor(x.nat, y.nat),
             b_and(b_not(x.nat), b_not(core.i_eq(x.v, y.v))))
    return d, d
  d = core.b_xor(core.to_b(x), core.to_b(y))
  return d, d


def cell_of_model(m, kind, x):
  if kind == 'bool':
    return z3.is_true(m.eval(x, model_completion=True))
  if kind == 'int':
    return m.eval(x.v, model_completion=True).as_long() if not is_k(x.v) else x.v
  if not is_c(x.nan) and z3.is_true(m.eval(x.nan, model_completion=True)):
    return 'nan'
  v = m.eval(x.v, model_completion=True)
  if z3.is_algebraic_value(v):
    v = v.approx(30)
  return Fraction(v.numerator_as_long(), v.denominator_as_long())


def extract(c, m):
  out = {}
  for name, (kind, cellsarr) in c.inputs.items():
    o = np.empty(cellsarr.shape, dtype=object)
    for i in np.ndindex(cellsarr.shape):
      o[i] = cell_of_model(m, kind, cellsarr[i])
    out[name] = o
  return out


def enc_inputs(values):
  def e(v):
    if isinstance(v, Fraction):
      return f'{v.numerator}/{v.denominator}'
    if isinstance(v, (bool, np.bool_)):
      return bool(v)
    if isinstance(v, (int, np.integer)):
      return int(v)
    return v
  return {k: {'shape': list(np.shape(v)),
              'data': [e(x) for x in np.asarray(v, dtype=object).ravel()]}
          for k, v in values.items()}


def dec_inputs(d):
  out = {}
  for k, v in d.items():
    o = np.empty(len(v['data']), dtype=object)
    for i, x in enumerate(v['data']):
      if isinstance(x, str) and x != 'nan':
        x = Fraction(x)
      o[i] = x
    out[k] = o.reshape(v['shape'])
  return out


CONTROL = (PathInfeasible, Inconclusive, Unsupported, AssumeFailed, Violation)


def run_conc(fn, values):
  """Replay on the real code. Returns (failures, exception or None)."""
  core.set_ctx(core.Context())
  h = H('conc', values=dict(values), rng=random.Random(0))
  patches.disable()
  try:
    fn(h)
  except AssumeFailed:
    return h, 'assume'
  except Exception as ex:  # pylint: disable=broad-except
    h.failures.append(('exception', f'{type(ex).__name__}: {ex}'))
    h.exc = ex
  finally:
    patches.enable()
  return h, None


class Result:
  def __init__(self):
    self.paths = 0
    self.branches = 0
    self.claims = 0
    self.cells = 0
    self.queries = 0
    self.branch_queries = 0
    self.solver_s = 0.0
    self.trivial = 0
    self.identities = 0
    self.reach = 0
    self.validated = 0
    self.violations = []    # dict(label, inputs, detail)
    self.errors = []
    self.sample = None
    self.wall = 0.0
    self.path_exc = []


def run_symbolic(fn, opts):
  """Explore all paths of harness fn; returns Result."""
  res = Result()
  t0 = time.time()
  c = core.Context(timeout_ms=opts.get('timeout_ms', 60000))
  c.deadline = t0 + opts.get('budget_s', 600)
  max_viol = opts.get('max_violations', 3)
  core.set_ctx(c)
  seen_labels = set()

  def on_claim(h, label, exact, robust, detail):
    todo = [(x, r) for x, r in zip(exact, robust) if x is not False]
    if not todo:
      res.trivial += 1
      return
    if label in seen_labels:
      return
    # one query for all cells, then cell by cell when it does not decide
    try:
      r, m = c.check([b_or(*[x for x, _ in todo])],
                     timeout_ms=opts.get('group_timeout_ms', 20000))
      if r == 'unsat':
        return
      cand = [(b_or(*[x for x, _ in todo]), b_or(*[y for _, y in todo]), m)]
    except Inconclusive:
      cand = []
      for x, y in todo:
        try:
          r, m = c.check([x])
        except Inconclusive:
          # exact equality undecided: decide the tolerance claim instead
          r, m = c.check([y])
        if r == 'sat':
          cand.append((x, y, m))
          break
    for x, y, m in cand:
      confirm(h, label, x, y, m, detail)

  def confirm(h, label, exact, robust, m, detail):
    saved = c
    tries = []
    vals = extract(c, m)
    ok, why = replay(label, vals)
    core.set_ctx(saved)
    if ok:
      record(label, vals, why)
      return
    tries.append(vals)
    # Not reproduced: ask for a clearly wrong value on moderate inputs.
    soft = []
    for name, (kind, ca) in c.inputs.items():
      if kind == 'float':
        for x in ca.ravel():
          soft.append(z3.And(x.v >= -1000, x.v <= 1000))
    try:
      r, m2 = c.check([robust])
    except Inconclusive:
      r, m2 = 'unknown', None
    if r == 'unsat':
      res.trivial += 0
      return          # equal within the stated tolerance
    for extra in (soft, []):
      try:
        r, m2 = c.check([robust] + extra)
      except Inconclusive:
        continue
      if r != 'sat':
        continue
      vals = extract(c, m2)
      ok, why = replay(label, vals)
      core.set_ctx(saved)
      if ok:
        record(label, vals, why)
        return
      tries.append(vals)
    raise Unsupported(
        f'counterexample to {label!r} does not reproduce on the real code '
        f'({why}); inputs {json.dumps(enc_inputs(vals))[:600]}')

  def replay(label, vals):
    hh, st = run_conc(fn, vals)
    if st == 'assume':
      return False, 'assumption fails in floating point'
    if hh.failures:
      labs = [f[0] for f in hh.failures]
      f = hh.failures[labs.index(label)] if label in labs else hh.failures[0]
      return True, f'{f[0]}: {f[1]}'
    return False, 'no failure on replay'

  def record(label, vals, why):
    seen_labels.add(label)
    res.violations.append(dict(label=label, inputs=enc_inputs(vals), detail=why))
    if len(res.violations) >= max_viol:
      raise Violation(label, vals)

  try:
    while True:
      c.base = []
      c.inputs = {}
      c.start_path()
      h = H('sym')
      h.on_claim = on_claim
      finished = False
      try:
        fn(h)
        finished = True
      except PathInfeasible:
        pass
      except Violation:
        raise
      except (Inconclusive, Unsupported):
        raise
      except AssumeFailed:
        pass
      except Exception as ex:  # pylint: disable=broad-except
        # The code (or the engine) raised on this path. Decide by replay.
        r, m = c.check([])
        if r == 'sat':
          tb = traceback.format_exc()
          vals = extract(c, m)
          ok, why = replay('exception', vals)
          core.set_ctx(c)
          if ok:
            record(f'exception:{type(ex).__name__}', vals, why)
          else:
            raise Unsupported('engine exception (real code does not raise): '
                              + tb[-1500:]) from ex
      if finished:
        res.claims += h.claims
        res.cells += h.cells_checked
        # Reachability twin: assert(False) at the end must be violated.
        try:
          r, m = c.check([])
          if r == 'sat':
            res.reach += 1
            if res.sample is None:
              res.sample = enc_inputs(extract(c, m))
        except Inconclusive:
          pass
      res.paths += 1
      res.branches += len(c.path)
      if res.paths > opts.get('max_paths', 4000):
        raise Inconclusive('path budget exhausted')
      if not c.next_path():
        break
  except Violation:
    pass
  except (Inconclusive, Unsupported) as ex:
    res.errors.append(f'{type(ex).__name__}: {ex}')
    if os.environ.get('SYMX_DEBUG'):
      traceback.print_exc()
  res.queries = c.n_queries
  res.identities = c.n_identities
  res.branch_queries = c.n_branch_queries
  res.solver_s = c.solver_s
  # Encoding validation: push concrete inputs through the real code and the
  # encoding and compare every claimed value; also a concrete reachability
  # witness if the solver could not provide one.
  n_shadow = opts.get('shadow', 2)
  rng = random.Random(opts.get('seed', 1))
  done = tries = 0
  while done < n_shadow and tries < 40 * max(1, n_shadow) and not res.violations:
    tries += 1
    core.set_ctx(core.Context())
    h1 = H('conc', values={}, rng=random.Random(rng.random()))
    patches.disable()
    try:
      fn(h1)
    except AssumeFailed:
      continue
    except Exception as ex:  # pylint: disable=broad-except
      if True:
        res.violations.append(dict(label=f'exception:{type(ex).__name__}',
                                   inputs=enc_inputs(h1.values),
                                   detail=f'{type(ex).__name__}: {ex}'))
      break
    finally:
      patches.enable()
    if h1.failures:
      # only possible when the symbolic exploration above was cut short
      if res.errors:
        f = h1.failures[0]
        res.violations.append(dict(label=f[0], inputs=enc_inputs(h1.values),
                                   detail=f'{f[0]}: {f[1]} (found while '
                                   'replaying a validation input)'))
      else:
        res.errors.append(f'validation input fails {h1.failures[0]} although '
                          'the solver found no counterexample: '
                          + json.dumps(enc_inputs(h1.values))[:500])
      break
    h2 = H('shadow', values=dict(h1.values))
    try:
      fn(h2)
    except Exception as ex:  # pylint: disable=broad-except
      res.errors.append(f'encoding validation: {type(ex).__name__}: {ex}')
      break
    bad = None
    if len(h1.outputs) != len(h2.outputs):
      bad = 'different number of outputs'
    else:
      for (l1, a1), (l2, a2) in zip(h1.outputs, h2.outputs):
        if l1 != l2 or a1.shape != a2.shape:
          bad = f'{l1}: shape'
          break
        for p, q in zip(a1.ravel(), a2.ravel()):
          if p is None or q is None:
            continue
          _, ro = _differs(p, q, Fraction(1, 10**5))
          if ro is not False:
            bad = f'{l1}: real {p!r} encoded {q!r}'
    if bad:
      res.errors.append(f'encoding disagrees with the real code: {bad} on '
                        + json.dumps(enc_inputs(h1.values))[:500])
      break
    done += 1
  res.validated = done
  if res.reach == 0 and done:
    res.reach = 1
  if res.reach == 0 and not res.violations and not res.errors:
    res.errors.append('vacuous: no path reaches the end of the harness')
  res.wall = time.time() - t0
  core.set_ctx(None)
  return res
