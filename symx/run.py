"""Runs the check of one property: all its harnesses, evidence, verdict."""
import argparse
import importlib
import json
import multiprocessing as mp
import os
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.environ.get('SYMX_EVIDENCE') or os.path.join(VERIF, 'evidence')


class Spec:
  """What a checks/<ID>.py module declares."""

  def __init__(self, pid, functions, bounds, assumptions, stubs=()):
    self.pid = pid
    self.functions = list(functions)
    self.bounds = bounds
    self.assumptions = list(assumptions)
    self.stubs = list(stubs)
    self.harnesses = []   # (name, fn, opts)

  def harness(self, name=None, thorough_only=False, quick_only=False, **opts):
    def deco(fn):
      self.harnesses.append((name or fn.__name__, fn,
                             dict(opts, thorough_only=thorough_only,
                                  quick_only=quick_only)))
      return fn
    return deco

  def add(self, name, fn, thorough_only=False, quick_only=False, **opts):
    self.harnesses.append((name, fn, dict(opts, thorough_only=thorough_only,
                                          quick_only=quick_only)))


def _child(conn, pid, idx, opts):
  from . import harness
  try:
    import resource
    lim = int(6.0 * 2**30)
    resource.setrlimit(resource.RLIMIT_AS, (max(lim, 0) * 2, max(lim, 0) * 2))
  except Exception:  # pylint: disable=broad-except
    pass
  try:
    spec = importlib.import_module(f'checks.{pid}').SPEC
    name, fn, hopts = spec.harnesses[idx]
    o = dict(hopts)
    o.update(opts)
    res = harness.run_symbolic(fn, o)
    conn.send(('ok', res.__dict__))
  except BaseException as ex:  # pylint: disable=broad-except
    conn.send(('err', f'{type(ex).__name__}: {ex}\n{traceback.format_exc()[-1500:]}'))
  finally:
    conn.close()


def load_known():
  p = os.path.join(VERIF, 'known_findings.json')
  if not os.path.exists(p):
    return []
  with open(p) as f:
    return json.load(f).get('findings', [])


def main(argv=None):
  ap = argparse.ArgumentParser()
  ap.add_argument('pid')
  ap.add_argument('--only', default=None)
  ap.add_argument('--jobs', type=int, default=int(os.environ.get('SYMX_JOBS', '8')))
  ap.add_argument('-v', action='store_true')
  args = ap.parse_args(argv)
  pid = args.pid
  tier = os.environ.get('VERIF_TIER', 'quick')
  if tier not in ('quick', 'thorough'):
    tier = 'quick'
  seed = int(os.environ.get('VERIF_SEED', '1') or 1)
  t0 = time.time()
  total = 840 if tier == 'quick' else 6 * 3600
  per = 700 if tier == 'quick' else 3 * 3600
  os.environ['VERIF_TIER'] = tier
  spec = importlib.import_module(f'checks.{pid}').SPEC
  assert spec.pid == pid
  from . import patches  # pylint: disable=g-import-not-at-top
  patches.adapt_modules()
  todo = [i for i, (n, f, o) in enumerate(spec.harnesses)
          if not (o['thorough_only'] and tier == 'quick')
          and not (o['quick_only'] and tier == 'thorough')
          and (args.only is None or args.only in n)]
  if not todo:
    print(f'no harness selected for {pid}')
    return 2
  todo.sort(key=lambda i: -spec.harnesses[i][2].get('cost', 1))
  ctxm = mp.get_context('fork')
  running, results, queue = {}, {}, list(todo)
  stop = False
  while queue or running:
    while queue and len(running) < args.jobs and not stop:
      i = queue.pop(0)
      a, b = ctxm.Pipe(duplex=False)
      left = max(5, total - (time.time() - t0))
      o = dict(seed=seed, budget_s=min(per, left),
               shadow=2 if tier == 'quick' else 6)
      if tier == 'thorough':
        o['timeout_ms'] = 300000
      p = ctxm.Process(target=_child, args=(b, pid, i, o))
      p.start()
      b.close()
      running[i] = (p, a, time.time())
    for i, (p, a, ts) in list(running.items()):
      got = None
      if a.poll(0.02):
        try:
          got = a.recv()
        except EOFError:
          got = ('err', 'harness process died')
      elif not p.is_alive():
        got = ('err', f'harness process ended (exit {p.exitcode})')
      elif time.time() - t0 > total + 20 or time.time() - ts > per + 60:
        p.kill()
        got = ('err', 'harness timed out')
      if got is not None:
        p.join(5)
        if p.is_alive():
          p.kill()
        del running[i]
        results[i] = got
        if args.v:
          nm = spec.harnesses[i][0]
          if got[0] == 'ok':
            d = got[1]
            print(f"  {nm}: paths={d['paths']} claims={d['claims']} "
                  f"q={d['queries']} solver={d['solver_s']:.1f}s wall={d['wall']:.1f}s "
                  f"val={d['validated']} viol={[v['label'] for v in d['violations']]} "
                  f"err={[e[:1500] for e in d['errors']]}", flush=True)
          else:
            print(f'  {nm}: {got[1]}', flush=True)
  known = [k for k in load_known() if k.get('property') == pid]
  os.makedirs(os.path.join(EVID, 'replays'), exist_ok=True)
  viol, errors, known_hits = [], [], set()
  agg = dict(paths=0, branches=0, claims=0, cells=0, queries=0,
             branch_queries=0, solver_s=0.0, validated=0, reach=0, trivial=0,
             identities=0)
  per_h = {}
  samples = []
  for i in todo:
    name = spec.harnesses[i][0]
    st, d = results[i]
    if st == 'err':
      errors.append(f'{name}: {d}')
      continue
    for k in agg:
      agg[k] += d[k]
    per_h[name] = dict(paths=d['paths'], claims=d['claims'], cells=d['cells'],
                       queries=d['queries'], solver_s=round(d['solver_s'], 3),
                       reachability_witnesses=d['reach'])
    if d['sample'] is not None and len(samples) < 4:
      samples.append(dict(harness=name, witness_inputs={
          k: v['data'][:12] for k, v in list(d['sample'].items())[:6]}))
    for e in d['errors']:
      errors.append(f'{name}: {e}')
    for v in d['violations']:
      k = next((k for k in known if k.get('harness') == name
                and k.get('label') == v['label']), None)
      if k is not None:
        known_hits.add(k['what'])
        continue
      n = len(viol)
      path = os.path.join(EVID, 'replays', f'{pid}-{n}.json')
      with open(path, 'w') as f:
        json.dump(dict(property=pid, harness=name, **v), f, indent=1)
      viol.append((name, v, path))
  wall = time.time() - t0
  if args.only is None:
    ev = dict(
        property=pid, tier=tier, seed=seed, level='model_checking',
        coverage=dict(
            states=agg['paths'],
            transitions=agg['branches'],
            traces_validated_against_impl=agg['validated'],
            samples=samples,
            states_meaning='symbolic paths executed to the end over the real code; transitions are the branch decisions on them',
            claims_discharged=agg['claims'],
            cells_compared=agg['cells'],
            solver_queries=agg['queries'],
            branch_feasibility_decisions=agg['branch_queries'],
            claims_structurally_identical=agg['trivial'],
            cells_settled_by_rational_normal_form=agg['identities'],
            reachability_witnesses=agg['reach'],
            solver_seconds=round(agg['solver_s'], 3),
            functions_encoded=spec.functions,
            bounds=spec.bounds,
            stubs=spec.stubs,
            harnesses=per_h,
            inconclusive=errors[:10],
        ),
        assumptions=spec.assumptions + BASE_ASSUMPTIONS,
        wall_s=round(wall, 2),
        violations=len(viol),
    )
    with open(os.path.join(EVID, f'{pid}.json'), 'w') as f:
      json.dump(ev, f, indent=1)
  for w in sorted(known_hits):
    print(f'KNOWN-FINDING: property={pid} {w}')
  print(f'{pid} [{tier}]: harnesses={len(todo)} paths={agg["paths"]} '
        f'claims={agg["claims"]} queries={agg["queries"]} '
        f'solver={agg["solver_s"]:.1f}s validated={agg["validated"]} '
        f'wall={wall:.1f}s violations={len(viol)} errors={len(errors)}')
  for name, v, path in viol:
    print(f'  {name} / {v["label"]}: {v["detail"][:400]}')
    print(f'VIOLATION property={pid} replay={path}')
  if viol:
    for e in errors:
      print('  (also inconclusive) ' + e[:300])
    return 1
  if errors:
    for e in errors:
      print('INCONCLUSIVE ' + e[:1200])
    # The property held on everything explored; without an answer for most of
    # what should have been explored there is no verdict.
    undecided = len({e.split(': ')[0] for e in errors})
    if args.only is not None or 2 * undecided >= len(todo):
      return 2
  return 0


BASE_ASSUMPTIONS = [
    'floats are extended reals (exact value, NaN, +inf, -inf): rounding, '
    'overflow and signed zeros are outside the claim; float32 casts are exact',
    'a difference between code and oracle below 1e-6*(1+|oracle|) is accepted',
    'numpy array semantics are those of symx (validated against real numpy on '
    'concrete inputs in every run); xarray and the code under test run for real',
    'array sizes, labels and non-symbolic configuration are the ones listed in '
    'bounds',
]

if __name__ == '__main__':
  rc = main()
  sys.stdout.flush()
  os._exit(rc)
