"""C07: time chunks partition the forecast times exactly once, in order."""
from checks.common import *
from weatherbenchX import time_chunks
TC = time_chunks.TimeChunks

N = 7 if THOROUGH else 5
M = 5 if THOROUGH else 4
SPEC = Spec(
    'C07',
    functions=['time_chunks.TimeChunks.__init__/__iter__/__len__/__getitem__/'
               'iter_with_chunk_offsets', 'init_times, lead_times, chunk size properties'],
    bounds=f'1..{N} initialisation and 1..{M} lead times with arbitrary symbolic '
           'time values; every chunk size from none/0 to beyond the number of '
           'times in both dimensions; three input time units',
    assumptions=['at least one initialisation and one lead time'])


def same(h, label, got, want):
  """Arrays of times equal, cell for cell."""
  h.true(label + ' length', len(got) == len(want), f'{len(got)} {len(want)}')
  if len(want):
    h.eq(label, got, arr.SymArray(objarr((len(want),), lambda i: want[i]), got.dtype))


def arrays(h, n, m, unit='ns'):
  lo, hi = (-10**6, 10**6)
  it = h.ints('init', (n,), lo, hi, dtype=f'M8[{unit}]')
  lt = h.ints('lead', (m,), lo, hi, dtype=f'm8[{unit}]')
  return it, lt


def ns(cells_, unit):
  f = {'ns': 1, 's': 10**9, 'h': 3600 * 10**9}[unit]
  return [I(core.i_mul(c.v, f), c.nat) for c in cells_]


def split(n, size):
  size = size or n
  return [list(range(i, min(i + size, n))) for i in range(0, n, size)], size


def run(h, n):
  m = h.choice('m', range(1, M + 1))
  a = h.choice('init chunk', [None] + list(range(0, n + 2)))
  b = h.choice('lead chunk', [None] + list(range(0, m + 2)))
  unit = ['ns', 's', 'h'][(n + m) % 3]
  it, lt = arrays(h, n, m, unit)
  ic, lc = ns(cells(it), unit), ns(cells(lt), unit)
  t = TC(it, lt, init_time_chunk_size=a, lead_time_chunk_size=b)
  ich, asz = split(n, a)
  lch, bsz = split(m, b)
  want = [(i, l) for i in ich for l in lch]
  got = list(t)
  h.true('number of chunks', len(t) == len(want) == len(got), f'{len(t)} {len(got)} {len(want)}')
  h.true('again', len(list(t)) == len(want))
  h.true('chunk sizes', t.init_time_chunk_size == asz and t.lead_time_chunk_size == bsz)
  same(h, 'init_times', t.init_times, ic)
  same(h, 'lead_times', t.lead_times, lc)
  h.true('dtypes', t.init_times.dtype == 'M8[ns]' and t.lead_times.dtype == 'm8[ns]')
  offs = list(t.iter_with_chunk_offsets())
  h.true('number with offsets', len(offs) == len(want))
  for k, (wi, wl) in enumerate(want):
    for tag, (gi, gl) in (('iteration', got[k]), ('index', t[k]), ('offset', offs[k][1])):
      same(h, f'{tag} {k} init', gi, [ic[j] for j in wi])
      same(h, f'{tag} {k} lead', gl, [lc[j] for j in wl])
      h.true(f'{tag} {k} not empty', len(gi) > 0 and len(gl) > 0)
    h.true(f'offset {k}', offs[k][0].init_time == wi[0] and offs[k][0].lead_time == wl[0],
           f'{offs[k][0]} instead of {wi[0]}, {wl[0]}')
  for bad in (-1, len(want), len(want) + 1):
    with h.raises(f'index {bad} out of range', IndexError):
      t[bad]


for _n in range(1, N + 1):
  SPEC.add(f'arrays[{_n} init times]', (lambda n: lambda h: run(h, n))(_n), cost=_n)


@SPEC.harness('lead time slice')
def slices(h):
  n = h.choice('n', range(1, 5))
  a = h.choice('init chunk', [None] + list(range(0, n + 2)))
  b = h.choice('lead chunk', [None, 0])
  it, _ = arrays(h, n, 1)
  ic = cells(it)
  s = slice(np.timedelta64(0, 'h'), np.timedelta64(6, 'h'))
  t = TC(it, s, init_time_chunk_size=a, lead_time_chunk_size=b)
  ich, _ = split(n, a)
  got = list(t)
  h.true('number of chunks', len(got) == len(ich) == len(t))
  h.true('lead_times', t.lead_times == s)
  for k, w in enumerate(ich):
    same(h, f'init {k}', got[k][0], [ic[j] for j in w])
    h.true(f'lead {k}', got[k][1] == s and t[k][1] == s)
    same(h, f'index {k}', t[k][0], [ic[j] for j in w])


@SPEC.harness('lead time slice with offsets')
def slice_offsets(h):
  n = h.choice('n', range(1, 5))
  a = h.choice('init chunk', [None] + list(range(0, n + 2)))
  b = h.choice('lead chunk', [None, 0])
  it, _ = arrays(h, n, 1)
  ic = cells(it)
  s = slice(np.timedelta64(0, 'h'), np.timedelta64(6, 'h'))
  t = TC(it, s, init_time_chunk_size=a, lead_time_chunk_size=b)
  ich, _ = split(n, a)
  got = list(t.iter_with_chunk_offsets())
  h.true('number of chunks', len(got) == len(ich))
  for k, w in enumerate(ich):
    h.true(f'offset {k}', got[k][0].init_time == w[0] and got[k][0].lead_time == 0)
    same(h, f'init {k}', got[k][1][0], [ic[j] for j in w])
    h.true(f'lead {k}', got[k][1][1] == s)


@SPEC.harness('rejected inputs')
def rejected(h):
  it, lt = arrays(h, 3, 2)
  d = np.timedelta64(6, 'h')
  z = np.timedelta64(0, 'h')
  for nm, l, kw in [
      ('no start', slice(None, d), {}), ('no stop', slice(z, None), {}),
      ('neither', slice(None, None), {}), ('step', slice(z, d, d), {}),
      ('slice with lead chunks', slice(z, d), dict(lead_time_chunk_size=1)),
      ('negative init chunk', lt, dict(init_time_chunk_size=-1)),
      ('negative lead chunk', lt, dict(lead_time_chunk_size=-1)),
      ('list', [z, d], {})]:
    with h.raises(nm, ValueError):
      TC(it, l, **kw)
