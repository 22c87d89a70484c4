"""C21: output files are written atomically (beam_utils.atomic_write)."""
import os
import shutil
import tempfile
import threading
import fsspec
from fsspec.implementations.local import LocalFileSystem
from checks.common import *
from weatherbenchX import aggregation, beam_pipeline, beam_utils
from symx.core import Inconclusive, PathInfeasible, Unsupported
from symx.harness import AssumeFailed, Violation

SPEC = Spec(
    'C21',
    functions=['beam_utils.atomic_write', 'beam_pipeline.WriteMetrics.process', 'beam_pipeline.WriteAggregationState.process'],
    bounds='one writer with up to two faults, or two writers of the same file in every interleaving of '
           'their file system calls (with a fault in one of them); each fault is an error before or after the call took effect, '
           'or a stop of the process; a write is cut short after any number of bytes; contents of 0 to 5 bytes; '
           'previous file and directory present or not',
    assumptions=['renaming within one directory is atomic; moving between directories copies and deletes',
                 'a file is visible and empty once opened (local), or once closed (object store)',
                 'a file system may require overwrite=True to replace a file by mv',
                 'a process that stops does nothing more, not even cleanup',
                 'one level of failure: leftovers are accepted if the cleanup fails as well'],
    stubs=['the file system: a model with symbolic faults, and a real directory in the replays'],
)

CONTROL = (PathInfeasible, Inconclusive, Unsupported, AssumeFailed, Violation)


class Stop(BaseException):
  """The process ends."""


class Model:
  """Path -> list of [bytes, number of them that were written]."""

  def __init__(self, h):
    self.h, self.files, self.dirs = h, {}, {'out'}

  def mkdir(self, d, exist_ok):
    if d in self.dirs and not exist_ok:
      raise FileExistsError(d)
    while d:
      self.dirs.add(d)
      d = os.path.dirname(d)

  def create(self, p):
    if os.path.dirname(p) not in self.dirs:
      raise FileNotFoundError(p)
    self.files[p] = []

  def append(self, p, data, n=None):
    # The name may be gone or reused by now; that is the caller's mistake.
    self.files.setdefault(p, []).append((bytes(data), len(data) if n is None else n))

  def remove(self, p):
    if p not in self.files:
      raise FileNotFoundError(p)
    del self.files[p]

  def rename(self, a, b):
    if a not in self.files:
      raise FileNotFoundError(a)
    self.files[b] = self.files.pop(a)

  def names(self):
    return set(self.files)

  def copy(self, a, b):
    self.files[b] = list(self.files[a])

  def holds(self, p, want):
    """Condition: p holds exactly the bytes `want` (None: does not exist)."""
    if want is None or p not in self.files:
      return want is None and p not in self.files
    parts = self.files[p]
    if b''.join(d for d, _ in parts) != want:
      # Cut off parts may coincide with it.
      return any_prefix(parts, want)
    return b_and(*[core.i_eq(n.v if isinstance(n, I) else n, len(d)) for d, n in parts]) if parts else True

  def close(self):
    pass


def any_prefix(parts, want):
  if not parts:
    return want == b''
  (d, n), rest = parts[0], parts[1:]
  n = n.v if isinstance(n, I) else n
  return b_or(*[b_and(core.i_eq(n, k), any_prefix(rest, want[k:]))
                for k in range(len(d) + 1) if want[:k] == d[:k]], False)


class Disk:
  """The same on the real local file system, in a scratch directory."""

  def __init__(self, h):
    self.root = tempfile.mkdtemp(prefix='c21-')
    os.mkdir(os.path.join(self.root, 'out'))
    self.fs = LocalFileSystem()

  def at(self, p):
    q = os.path.normpath(os.path.join(self.root, p))
    if not q.startswith(self.root + os.sep):
      raise PermissionError(p)
    return q

  def mkdir(self, d, exist_ok):
    self.fs.makedirs(self.at(d), exist_ok=exist_ok)

  def create(self, p):
    with self.fs.open(self.at(p), 'wb'):
      pass

  def append(self, p, data, n=None):
    with self.fs.open(self.at(p), 'ab') as f:
      f.write(bytes(data)[:n])

  def remove(self, p):
    self.fs.rm(self.at(p))

  def rename(self, a, b):
    self.fs.mv(self.at(a), self.at(b), overwrite=True)

  def names(self):
    return {os.path.relpath(os.path.join(d, f), self.root) for d, _, fs in os.walk(self.root) for f in fs}

  def copy(self, a, b):
    self.fs.cp_file(self.at(a), self.at(b))

  def holds(self, p, want):
    if want is None or not os.path.exists(self.at(p)):
      return want is None and not os.path.exists(self.at(p))
    with open(self.at(p), 'rb') as f:
      return f.read() == want

  def close(self):
    shutil.rmtree(self.root)


class Worker:
  """Faults of one process, met in the order of its file system calls."""

  def __init__(self, world, name, faults=0, kinds=('error', 'stop')):
    self.world, self.name, self.kinds = world, name, kinds
    h = world.h
    self.at = [h.ints(f'{name} fault {i}', (), 0, 9) for i in range(faults)]
    for a, b in zip(self.at, self.at[1:]):
      h.assume(b >= a)
    self.calls = self.met = 0
    self.stopped = False
    self.ops, self.injected = [], []

  def fault(self, op, cut):
    h = self.world.h
    c, self.calls = self.calls, self.calls + 1
    self.ops.append(op)
    if self.met >= len(self.at) or not h.is_true(self.at[self.met] == c):
      return None
    self.met += 1
    kind = h.choice(f'{self.name} kind {c}', self.kinds)
    when = h.choice(f'{self.name} when {c}', ('before', 'after') if not cut else ('before', 'cut', 'after'))
    if kind == 'stop':
      return when, Stop
    return when, h.choice(f'{self.name} exception {c}', (OSError, FileNotFoundError, KeyboardInterrupt))


class World:
  now = None

  def __init__(self, h, kind='local'):
    self.h, self.kind = h, kind
    self.store = Model(h) if h.sym else Disk(h)
    self.dead = None
    self.current = None
    self.turn = None   # set by the scheduler

  def step(self, op, effect, cut=None):
    if self.dead is not None:
      raise self.dead
    if self.turn is not None:
      self.turn()
    if self.dead is not None:
      raise self.dead
    w = self.current
    if w.stopped:
      raise Stop
    try:
      f = w.fault(op, cut is not None)
      if f is None:
        return effect()
      when, exc = f
      if exc is Stop:
        w.stopped = True
      if when == 'after':
        try:
          effect()
        except OSError:
          pass
      elif when == 'cut':
        cut()
      w.injected.append(exc(f'{when} {op}'))
      raise w.injected[-1]
    except CONTROL as ex:
      self.dead = ex
      raise

  def __enter__(self):
    World.now = self
    return self

  def __exit__(self, *a):
    World.now = None
    self.store.close()


class FaultFile:

  def __init__(self, world, path, mode):
    self.world, self.path, self.mode = world, path, mode
    self.buffer, self.closed = [], False
    if world.kind == 'local' and 'w' in mode:
      world.store.create(path)

  def write(self, data):
    w = self.world
    data = bytes(data)
    n = w.h.ints(f'{w.current.name} cut {w.current.calls}', (), 0, len(data))
    n = n.data[()] if w.h.sym else int(n)
    put = lambda k=None: (w.store.append(self.path, data, k) if w.kind == 'local' else self.buffer.append((data, k)))
    w.step('write', put, lambda: put(n))
    return len(data)

  def flush(self, *a):
    self.world.step('flush', lambda: None)

  def finish(self):
    w = self.world
    if w.kind != 'local':
      if self.path in w.store.names():
        w.store.remove(self.path)
      w.store.create(self.path)
      for d, k in self.buffer:
        w.store.append(self.path, d, k)

  def close(self):
    if self.closed:
      return
    self.closed = True
    self.world.step('close', self.finish)

  def writable(self):
    return True

  def __enter__(self):
    return self

  def __exit__(self, *a):
    self.close()


class FaultFS(fsspec.AbstractFileSystem):
  protocol = 'wbxfault'
  cachable = False

  @property
  def w(self):
    return World.now

  def _open(self, path, mode='rb', **kw):
    box = []
    if 'r' in mode:
      raise NotImplementedError(mode)
    self.w.step('open', lambda: box.append(FaultFile(self.w, path, mode)))
    return box[0]

  def makedirs(self, path, exist_ok=False):
    path = self._strip_protocol(path)
    self.w.step('makedirs', lambda: self.w.store.mkdir(path, exist_ok))

  def mkdir(self, path, create_parents=True, **kw):
    path = self._strip_protocol(path)
    self.w.step('mkdir', lambda: self.w.store.mkdir(path, False))

  def rm(self, path, recursive=False, maxdepth=None):
    for p in [path] if isinstance(path, str) else path:
      self.w.step('rm', lambda p=p: self.w.store.remove(self._strip_protocol(p)))

  def rm_file(self, path):
    self.rm(path)

  _rm = rm_file

  def mv(self, path1, path2, recursive=False, maxdepth=None, overwrite=False, **kw):
    a, b = self._strip_protocol(path1), self._strip_protocol(path2)
    s = self.w.store
    if not overwrite and b in s.names():
      raise FileExistsError(b)
    if os.path.dirname(a) == os.path.dirname(b):
      self.w.step('mv', lambda: s.rename(a, b))
    else:
      self.cp_file(a, b)
      self.rm(a)

  def cp_file(self, path1, path2, **kw):
    a, b = self._strip_protocol(path1), self._strip_protocol(path2)
    s = self.w.store
    if a not in s.names():
      raise FileNotFoundError(a)
    self.w.step('copy', lambda: s.create(b))
    self.w.step('copy', lambda: s.copy(a, b))

  def _seen(self, path):
    p = self._strip_protocol(path)
    box = []
    self.w.step('look', lambda: box.append(p in self.w.store.names()))
    return p, box[0]

  def exists(self, path, **kw):
    return self._seen(path)[1] or self._isdir(path)

  def isfile(self, path):
    return self._seen(path)[1]

  def _isdir(self, path):
    p, s = self._strip_protocol(path), self.w.store
    return p in s.dirs if isinstance(s, Model) else os.path.isdir(s.at(p))

  def isdir(self, path):
    self.w.step('look', lambda: None)
    return self._isdir(path)

  def info(self, path, **kw):
    p, there = self._seen(path)
    if there:
      return dict(name=p, size=None, type='file')
    if self._isdir(p):
      return dict(name=p, size=0, type='directory')
    raise FileNotFoundError(path)

  def ls(self, path, detail=True, **kw):
    p = self._strip_protocol(path)
    box = []
    self.w.step('ls', lambda: box.extend(n for n in self.w.store.names() if os.path.dirname(n) == p))
    return [dict(name=n, size=None, type='file') for n in box] if detail else box


fsspec.register_implementation('wbxfault', FaultFS, clobber=True)


def attempt(world, fn):
  """'done', 'stopped' or the exception that came out."""
  try:
    fn()
    out = 'done'
  except CONTROL as ex:
    world.dead = world.dead or ex
    out = ex
  except Stop:
    out = 'stopped'
  except BaseException as ex:  # pylint: disable=broad-except
    out = ex
  if world.dead is not None and world.turn is None:
    raise world.dead
  return out


def verdict(h, world, worker, out, path, old, news, before):
  """What may be there after one writer ended with `out`."""
  s = world.store
  mine = news[worker.name]
  there = [s.holds(path, c) for c in [old] + list(news.values())]
  h.check('destination holds a complete content', b_or(*there))
  extra = s.names() - before - {path}
  if worker.stopped:
    h.true('a stopped process returns nothing', out == 'stopped', str(out))
  elif out == 'done':
    if len(news) == 1:
      h.check('success means the new content is there', s.holds(path, mine))
    if worker.met < 2:
      h.true('no file left behind by a success', not extra, str(extra))
  elif worker.met == 0:
    h.fail('fails without any fault', repr(out))
  elif worker.met == 1:
    h.true('the failure is reported', worker.injected[0] in (out, out.__cause__), f'{out!r} for {worker.injected[0]!r}')
    h.true('no file left behind by a failure', not extra, f'{worker.ops} {out!r} {extra}')
  for p, c in ((q, b'keep') for q in before - {path}):
    h.check('other files are left alone', s.holds(p, c))


def setting(h, world, path, lists=(None, b'old')):
  s = world.store
  old = h.choice('previous content', lists)
  d = os.path.dirname(path)
  if old is not None:
    s.mkdir(d, True)
    s.create(path)
    s.append(path, old)
  for p in ('out/tmp.out.nc', 'out/other.nc'):
    s.create(p)
    s.append(p, b'keep')
  return old, s.names()


def single(h, faults, kind, path, news=(b'', b'n', b'fresh')):
  with World(h, kind) as world:
    old, before = setting(h, world, path)
    new = h.choice('new content', news)
    world.current = w = Worker(world, 'writer', faults)
    out = attempt(world, lambda: beam_utils.atomic_write('wbxfault://' + path, new))
    verdict(h, world, w, out, path, old, {'writer': new}, before)


for kind in ('local', 'object store'):
  for path in ('out/out.nc', 'out/a/b/out.nc'):
    SPEC.add(f'one writer[{kind} {path}]', (lambda k, p: lambda h: single(h, 1, k, p))(kind, path))
  SPEC.add(f'two faults[{kind}]', (lambda k: lambda h: single(h, 2, k, 'out/out.nc', (b'fresh',)))(kind), cost=3)
SPEC.add('two faults, new directory', lambda h: single(h, 2, 'local', 'out/a/out.nc', (b'', b'fresh')), cost=3, thorough_only=True)
SPEC.add('three faults', lambda h: single(h, 3, 'local', 'out/out.nc', (b'fresh',)), cost=5, thorough_only=True)


def directories(h):
  """Missing directories are made unless that is turned off."""
  with World(h) as world:
    make = h.choice('auto_mkdir', (True, False))
    path = h.choice('path', ('out/out.nc', 'out/a/out.nc', 'out/a/b/c/out.nc'))
    before = world.store.names()
    world.current = Worker(world, 'writer')
    out = attempt(world, lambda: beam_utils.atomic_write('wbxfault://' + path, b'data', auto_mkdir=make))
    if make or path == 'out/out.nc':
      h.true('written', out == 'done', repr(out))
      h.check('content', world.store.holds(path, b'data'))
      h.true('nothing else', world.store.names() - before == {path})
    else:
      h.true('reported', isinstance(out, FileNotFoundError), repr(out))
      h.true('nothing written', world.store.names() == before)


SPEC.add('directories', directories)


def repeated(h):
  """A retry after a fault, or a later write, replaces the content."""
  path = 'out/out.nc'
  with World(h) as world:
    old, before = setting(h, world, path)
    world.current = Worker(world, 'first', 1)
    one = attempt(world, lambda: beam_utils.atomic_write('wbxfault://' + path, b'first'))
    left = world.store.names() - before - {path}
    world.current = w = Worker(world, 'second')
    two = attempt(world, lambda: beam_utils.atomic_write('wbxfault://' + path, b'second'))
    h.true('the retry works', two == 'done', repr(two))
    h.check('its content is there', world.store.holds(path, b'second'))
    h.true('no new leftovers', world.store.names() - before - {path} <= left)
    del one, w


SPEC.add('repeated', repeated)


def racing(h, faults, kinds=('error', 'stop'), kind='local', limit=99, sizes=(b'bb', b'cccc')):
  """Two workers write the same file; every order of their calls."""
  path = 'out/out.nc'
  with World(h, kind) as world:
    old, before = setting(h, world, path, (b'old',) if kind == 'local' else (None,))
    news = dict(zip(('one', 'two'), sizes))
    workers = {n: Worker(world, n, faults if n == 'one' else 0, kinds) for n in news}
    outs, go, back = {}, {n: threading.Event() for n in news}, threading.Event()
    me = threading.local()

    def turn():
      n = me.name
      back.set()
      go[n].wait()
      go[n].clear()
      world.current = workers[n]

    def run(n):
      me.name = n
      go[n].wait()
      go[n].clear()
      world.current = workers[n]
      outs[n] = attempt(world, lambda: beam_utils.atomic_write('wbxfault://' + path, news[n]))
      back.set()

    world.turn = turn
    threads = {n: threading.Thread(target=run, args=(n,), daemon=True) for n in news}
    for t in threads.values():
      t.start()
    i, last, switches = 0, None, limit
    try:
      while len(outs) < 2 and world.dead is None:
        live = [n for n in news if n not in outs]
        if len(live) == 1:
          n = live[0]
        elif last in live and switches == 0:
          n = last
        else:
          n = h.choice(f'next {i}', live)
        if last in live and n != last:
          switches -= 1
        i, last = i + 1, n
        go[n].set()
        back.wait()
        back.clear()
        for p in (path,):
          h.check('complete at every moment', b_or(*[world.store.holds(p, c) for c in [old, *news.values()]]))
    except CONTROL as ex:
      world.dead = ex
    if world.dead is not None:
      for n in news:
        while n not in outs:
          go[n].set()
          threads[n].join(0.001)
      raise world.dead
    world.turn = None
    for n, out in outs.items():
      if n == 'two':
        h.true('an undisturbed writer succeeds', out == 'done', repr(out))
    extra = world.store.names() - before - {path}
    one = workers['one']
    if not one.stopped:
      h.true('no file left behind', not extra, f'{one.ops} {outs} {extra}')
    if one.met == 0:
      h.true('both succeed', outs['one'] == 'done', repr(outs['one']))
    h.check('a new content is there', b_or(*[world.store.holds(path, c) for c in news.values()]))


SPEC.add('two writers', lambda h: racing(h, 0), cost=4, max_paths=20000)
SPEC.add('two writers, object store', lambda h: racing(h, 0, kind='object store'), cost=4, max_paths=20000)
SPEC.add('two writers, one stops', lambda h: racing(h, 1, ('stop',), limit=2), cost=6, max_paths=20000)
SPEC.add('two writers, one fails', lambda h: racing(h, 1, ('error',), limit=1), cost=6, max_paths=20000)
SPEC.add('two writers, one stops, any order', lambda h: racing(h, 1, ('stop',)), cost=6, thorough_only=True, max_paths=40000)
SPEC.add('two writers, one fails, any order', lambda h: racing(h, 1, ('error',)), cost=6, thorough_only=True, max_paths=80000)


def outputs(h, faults, which):
  """The pipeline's output steps write through it."""
  path = 'out/out.nc'
  vals = xr.DataArray([1.0, np.nan, -2.5], dims='x', coords={'x': [3, 1, 2]}, attrs={'a': 1})
  with World(h) as world:
    old, before = setting(h, world, path)
    world.current = w = Worker(world, 'writer', faults, ('error', 'stop'))
    if which == 'metrics':
      ds = xr.Dataset({'mae.v': vals})
      fn, arg, want = beam_pipeline.WriteMetrics, ds, ds
    else:
      st = aggregation.AggregationState({'s': {'v': vals}}, {'s': {'v': vals * 0 + 2}})
      fn, arg, want = beam_pipeline.WriteAggregationState, st, st.to_dataset()
    made = []
    real = xr.Dataset.to_netcdf

    def to_netcdf(self, *a, **kw):
      r = real(self, *a, **kw)
      made.append((self.copy(deep=True), bytes(r)))
      return r

    xr.Dataset.to_netcdf = to_netcdf
    try:
      out = attempt(world, lambda: list(fn('wbxfault://' + path).process(arg)))
    finally:
      xr.Dataset.to_netcdf = real
    h.true('serialised once', len(made) == 1, str(len(made)))
    got, raw = made[0]
    h.true('all values', got.equals(want), str(got))
    with xr.open_dataset(raw) as back:
      h.true('readable', back.load().equals(want), str(back))
    verdict(h, world, w, out, path, old, {'writer': raw}, before)


for which in ('metrics', 'state'):
  SPEC.add(f'write {which}', (lambda k: lambda h: outputs(h, 1, k))(which))
