"""A small in-process interpreter of beam pipelines with a chosen schedule.

`Root() | transform` runs the real DoFns and CombineFns on lists.  The
schedule decides the order of elements, how they are bundled into
accumulators and how accumulators are merged; Beam leaves all of that open.
"""
import apache_beam as beam
from apache_beam.transforms import core as bcore
from apache_beam.transforms import ptransform


class Schedule:
  """perm(n): order of n elements; splits(n): bundle sizes; tree: merge shape."""

  def __init__(self, perm=None, split=None, tree='flat', empty=False, reverse=False):
    self.perm, self.split, self.tree, self.empty, self.reverse = perm, split, tree, empty, reverse

  def order(self, xs):
    xs = list(xs)
    if self.perm is not None and len(xs) == len(self.perm):
      return [xs[i] for i in self.perm]
    return xs

  def combine(self, fn, xs, args=(), kwargs=None):
    kwargs = kwargs or {}
    n = len(xs)
    cut = self.split if self.split is not None else [True] * (n - 1)
    groups, cur = [], []
    for i, x in enumerate(xs):
      cur.append(x)
      if i == n - 1 or cut[i % len(cut)] if cut else i == n - 1:
        groups.append(cur)
        cur = []
    accs = []
    for g in groups:
      a = fn.create_accumulator(*args, **kwargs)
      for x in g:
        a = fn.add_input(a, x, *args, **kwargs)
      if hasattr(fn, 'compact'):
        a = fn.compact(a, *args, **kwargs)
      accs.append(a)
    if self.empty:
      accs.insert(len(accs) // 2, fn.create_accumulator(*args, **kwargs))
    merge = lambda l: fn.merge_accumulators(iter(l), *args, **kwargs)
    if self.tree == 'flat':
      acc = merge(accs)
    elif self.tree == 'left':
      acc = accs[0]
      for a in accs[1:]:
        acc = merge([acc, a])
    else:
      acc = accs[-1]
      for a in accs[-2::-1]:
        acc = merge([a, acc])
    return fn.extract_output(acc, *args, **kwargs)


class Stub(ptransform.PTransform):
  """A transform a harness substitutes; run(elements) -> elements."""


class PC:
  def __init__(self, xs, sched):
    self.xs, self.sched = list(xs), sched
    self.pipeline = self
    self.element_type = object

  def __or__(self, t):
    while isinstance(t, bcore.ptransform._NamedPTransform):
      t = t.transform
    return self.apply(t)

  def _with(self, xs):
    return PC(xs, self.sched)

  def apply(self, t):
    s = self.sched
    if isinstance(t, Stub):
      return self._with(t.run(self.xs))
    if isinstance(t, bcore.Create):
      return self._with(s.order(t.values))
    if isinstance(t, bcore.ParDo):
      fn = t.fn
      if hasattr(fn, 'setup'):
        fn.setup()
      if hasattr(fn, 'start_bundle'):
        fn.start_bundle()
      out = []
      for x in self.xs:
        r = fn.process(x, *t.args, **t.kwargs)
        out.extend(r if r is not None else [])
      if hasattr(fn, 'finish_bundle'):
        out.extend(fn.finish_bundle() or [])
      return self._with(out)
    if isinstance(t, bcore.GroupByKey):
      return self._with([(k, iter_once(v)) for k, v in self.group()])
    if isinstance(t, (bcore.CombinePerKey, bcore.CombineValues)):
      grouped = self.group() if isinstance(t, bcore.CombinePerKey) else self.xs
      return self._with([(k, s.combine(t.fn, list(v), t.args, t.kwargs)) for k, v in grouped])
    if isinstance(t, bcore.CombineGlobally):
      return self._with([s.combine(t.fn, self.xs, t.args, t.kwargs)])
    return t.expand(self)

  def group(self):
    keys, vals = [], []
    for k, v in self.xs:
      if k in keys:
        vals[keys.index(k)].append(v)
      else:
        keys.append(k)
        vals.append([v])
    out = list(zip(keys, vals))
    if self.sched.reverse:
      out = [(k, v[::-1]) for k, v in out[::-1]]
    return out


def iter_once(v):
  """Beam hands out iterables; a list is the simplest faithful one."""
  return list(v)


def root(sched):
  return PC([], sched)
