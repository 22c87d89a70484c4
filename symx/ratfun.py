"""Decides identities of rational functions with square roots by normal form.

identity(d, ctx) returns None when it cannot tell, else a list of guards: d is
zero wherever none of the guards (a denominator that is zero, a negative
radicand) holds.  Everything that is not + - * / or a known square root is an
atom.
"""
from fractions import Fraction
import math
import time
import z3
from . import core

CAP = 4000
BUDGET_S = 2.0


class TooBig(Exception):
  pass


def p_const(k):
  return {(): k} if k else {}


def p_add(a, b, s=1):
  r = dict(a)
  for m, c in b.items():
    v = r.get(m, 0) + s * c
    if v:
      r[m] = v
    else:
      r.pop(m, None)
  if len(r) > CAP:
    raise TooBig()
  return r


def _mmul(m, n):
  d = dict(m)
  for k, e in n:
    d[k] = d.get(k, 0) + e
  return tuple(sorted(d.items()))


def p_mul(a, b):
  if len(a) * len(b) > CAP * 20:
    raise TooBig()
  r = {}
  for m, c in a.items():
    for n, d in b.items():
      k = _mmul(m, n) if m and n else (m or n)
      v = r.get(k, 0) + c * d
      if v:
        r[k] = v
      else:
        r.pop(k, None)
  if len(r) > CAP:
    raise TooBig()
  return r


def p_pow(a, n):
  r = p_const(Fraction(1))
  for _ in range(n):
    r = p_mul(r, a)
  return r


def p_key(a):
  """Monic representative: (key, poly, leading coefficient)."""
  lead = min(a)
  c = a[lead]
  q = {m: x / c for m, x in a.items()}
  return frozenset(q.items()), q, c


class Norm:
  """Numerator polynomial and factored denominator of a term."""

  def __init__(self, ctx):
    self.memo = {}
    self.guards = {}
    self.roots = {}
    self.apps = {}
    for (*name, _), (v, s) in ctx.uf_apps.items():
      name = name[0] if len(name) == 1 else tuple(name)
      if isinstance(s, (int, Fraction)) or isinstance(v, (int, Fraction)):
        continue
      self.apps[s.get_id()] = (name, v)
      if name == 'sqrt':
        self.roots[s.get_id()] = v
    self.reps, self.root_terms = {}, {}
    self.plain = {}
    self.n = 0
    self.end = time.monotonic() + BUDGET_S

  def expand_den(self, den):
    r = p_const(Fraction(1))
    for poly, e in den.values():
      r = p_mul(r, p_pow(poly, e))
    return r

  def add(self, x, y):
    (n, d), (m, e) = x, y
    if d.keys() == e.keys() and all(d[k][1] == e[k][1] for k in d):
      return p_add(n, m), d
    lcm = dict(d)
    for k, (poly, ex) in e.items():
      if k not in lcm or lcm[k][1] < ex:
        lcm[k] = (poly, ex)
    def scale(num, den):
      for k, (poly, ex) in lcm.items():
        have = den[k][1] if k in den else 0
        if ex > have:
          num = p_mul(num, p_pow(poly, ex - have))
      return num
    return p_add(scale(n, d), scale(m, e)), lcm

  def mul(self, x, y):
    (n, d), (m, e) = x, y
    den = dict(d)
    for k, (poly, ex) in e.items():
      den[k] = (poly, ex + (den[k][1] if k in den else 0))
    return self.cancel(p_mul(n, m), den)

  def cancel(self, num, den):
    if not num:
      return num, {}
    if den:
      k, q, c = p_key(num)
      if k in den:
        poly, ex = den[k]
        den = dict(den)
        if ex == 1:
          del den[k]
        else:
          den[k] = (poly, ex - 1)
        return p_const(c), den
    return num, den

  def inv(self, x):
    n, d = x
    if not n:
      return None
    if set(n) == {()}:
      return self.scale(self.expand_den(d), 1 / n[()]), {}
    k, q, c = p_key(n)
    return self.scale(self.expand_den(d), 1 / c), {k: (q, 1)}

  def scale(self, p, c):
    return {m: v * c for m, v in p.items()}

  def rep(self, i):
    """The first application in use of the same function to an equal value."""
    if i in self.reps:
      return self.reps[i]
    name, v = self.apps[i]
    n, d = self.term(v)
    for j, (m, e) in self.root_terms.items():
      if self.apps[j][0] != name:
        continue
      l = p_mul(n, self.expand_den(e))
      r = p_mul(m, self.expand_den(d))
      if not p_add(l, r, -1):
        for q in (i, j) if name == 'sqrt' else ():
          self.guards[('r', q)] = core.r_lt(self.roots[q], Fraction(0))
        self.reps[i] = j
        return j
    self.root_terms[i] = (n, d)
    self.reps[i] = i
    return i

  def atom(self, t):
    i = t.get_id()
    if i in self.apps:
      i = self.rep(i)
    else:
      self.plain[i] = t
    return {((i, 1),): Fraction(1)}, {}

  def term(self, t):
    i = t.get_id()
    if i in self.memo:
      return self.memo[i]
    self.n += 1
    if self.n > 20000 or time.monotonic() > self.end:
      raise TooBig()
    r = self._term(t)
    self.memo[i] = r
    return r

  def _term(self, t):
    if z3.is_rational_value(t):
      return p_const(Fraction(t.numerator_as_long(),
                              t.denominator_as_long())), {}
    k = t.decl().kind()
    if k == z3.Z3_OP_ADD:
      r = self.term(t.arg(0))
      for j in range(1, t.num_args()):
        r = self.add(r, self.term(t.arg(j)))
      return r
    if k == z3.Z3_OP_SUB:
      r = self.term(t.arg(0))
      for j in range(1, t.num_args()):
        n, d = self.term(t.arg(j))
        r = self.add(r, (self.scale(n, -1), d))
      return r
    if k == z3.Z3_OP_UMINUS:
      n, d = self.term(t.arg(0))
      return self.scale(n, -1), d
    if k == z3.Z3_OP_MUL:
      r = self.term(t.arg(0))
      for j in range(1, t.num_args()):
        r = self.mul(r, self.term(t.arg(j)))
      return r
    if k == z3.Z3_OP_DIV:
      a, b = self.term(t.arg(0)), self.term(t.arg(1))
      if not z3.is_rational_value(t.arg(1)):
        self.guards[t.arg(1).get_id()] = core.r_eq(t.arg(1), Fraction(0))
      b = self.inv(b)
      if b is None:
        raise TooBig()
      return self.mul(a, b)
    return self.atom(t)

  def reduce_roots(self, num):
    """Replaces even powers of square roots; num is known to be over atoms."""
    for _ in range(200):
      rs = sorted({i for m in num for i, e in m if e >= 2 and i in self.roots},
                  reverse=True)
      if not rs:
        return num
      s = rs[0]
      v = self.roots[s]
      self.guards[('r', s)] = core.r_lt(v, Fraction(0))
      vn, vd = self.term(v)
      vd = self.expand_den(vd)
      if time.monotonic() > self.end:
        raise TooBig()
      top = max(e for m in num for i, e in m if i == s) // 2
      out = {}
      for m, c in num.items():
        e = dict(m).get(s, 0)
        q, r = divmod(e, 2)
        rest = tuple((i, x) for i, x in m if i != s)
        if r:
          rest = _mmul(rest, ((s, 1),))
        p = {rest: c}
        p = p_mul(p, p_mul(p_pow(vn, q), p_pow(vd, top - q)))
        out = p_add(out, p)
      num = out
    raise TooBig()


def perfect_root(v, ctx):
  """|m| when v is the square of a monomial m over plain atoms, else None."""
  try:
    nm = Norm(ctx)
    num, den = nm.term(v)
    if den or nm.guards or len(num) > 1:
      return None
    if not num:
      return Fraction(0)
    (m, c), = num.items()
    if c < 0 or any(e % 2 for _, e in m) or any(i not in nm.plain for i, _ in m):
      return None
    n, d = math.isqrt(c.numerator), math.isqrt(c.denominator)
    if n * n != c.numerator or d * d != c.denominator:
      return None
    r = z3.RealVal(Fraction(n, d))
    for i, e in m:
      r = r * nm.plain[i] ** (e // 2) if e > 2 else r * nm.plain[i]
    r = z3.simplify(r)
    return z3.If(r >= 0, r, -r)
  except (TooBig, RecursionError, ZeroDivisionError, z3.Z3Exception):
    return None


def _identity(d, ctx):
  try:
    nm = Norm(ctx)
    num, _ = nm.term(d)
    num = nm.reduce_roots(num)
    if num:
      return None
    return [g for g in nm.guards.values() if g is not False]
  except (TooBig, RecursionError, ZeroDivisionError, z3.Z3Exception):
    return None


def _condition(d):
  """Condition of some real-valued if-then-else of d that has none inside."""
  seen, todo = set(), [d]
  while todo:
    t = todo.pop()
    if t.get_id() in seen:
      continue
    seen.add(t.get_id())
    if t.decl().kind() == z3.Z3_OP_ITE:
      return t.arg(0)
    todo.extend(t.children())
  return None


SPLITS = 64


def identity(d, ctx):
  """Guards under which d may differ from zero, or None.

  Splits on the conditions of if-then-else terms where that is needed.
  """
  r = _identity(d, ctx)
  if r is not None:
    return r
  end = time.monotonic() + 2 * BUDGET_S
  out, todo, leaves = [], [(d, [])], 0
  while todo:
    t, case = todo.pop()
    c = _condition(t)
    if c is None:
      leaves += 1
      r = [] if _impossible(case) else (_identity(t, ctx) if case else None)
      if r is None or leaves > SPLITS or time.monotonic() > end:
        return None
      out += [core.b_and(*case, g) for g in r]
      continue
    if len(todo) + leaves > SPLITS or time.monotonic() > end:
      return None
    for v, l in ((True, c), (False, z3.Not(c))):
      todo.append((z3.simplify(z3.substitute(t, (c, z3.BoolVal(v)))), case + [l]))
  return out


def _impossible(case):
  if len(case) < 2:
    return False
  s = z3.Solver()
  s.set('timeout', 200)
  s.add(*case)
  return s.check() == z3.unsat
