"""Writes seeded/<id>/ from a spec; `verify` checks each in a scratch copy.

usage: mkseed.py write [ID...] | verify [ID...] | check [ID...]
"""
import concurrent.futures, json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'tools'))
import seeds_spec

DEMO_SH = '''#!/bin/bash
# run with cwd /repo after build.sh: exit 0 on the unchanged tree
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 JAX_PLATFORMS=cpu NO_GCE_CHECK=true
exec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"
'''

def copy(dst, tree=False):
  subprocess.check_call(['cp', '-a', '/repo', dst])
  subprocess.check_call(['git', '-C', dst, 'checkout', '-q', '--', '.'])

def write(s):
  d = os.path.join(V, 'seeded', s['id'])
  os.makedirs(d, exist_ok=True)
  tmp = tempfile.mkdtemp(prefix='seed_')
  try:
    r = os.path.join(tmp, 'repo'); copy(r)
    for f, old, new in s['edits']:
      p = os.path.join(r, f); t = open(p).read()
      assert t.count(old) == 1, (s['id'], f, t.count(old), old)
      open(p, 'w').write(t.replace(old, new))
    diff = subprocess.check_output(['git', '-C', r, 'diff'], text=True)
  finally:
    shutil.rmtree(tmp)
  open(os.path.join(d, 'patch.diff'), 'w').write(diff)
  open(os.path.join(d, 'demo.sh'), 'w').write(DEMO_SH)
  os.chmod(os.path.join(d, 'demo.sh'), 0o755)
  open(os.path.join(d, 'demo.py'), 'w').write(s['demo'].lstrip('\n'))
  json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']},
            open(os.path.join(d, 'meta.json'), 'w'), indent=1)

def verify(i, tests=True):
  d = os.path.join(V, 'seeded', i)
  tmp = tempfile.mkdtemp(prefix='seed_')
  out = []
  try:
    r = os.path.join(tmp, 'repo'); copy(r)
    p = subprocess.run(['bash', os.path.join(d, 'demo.sh')], cwd=r, capture_output=True, text=True)
    out.append(('demo clean', p.returncode == 0, p.stdout[-600:] + p.stderr[-600:]))
    subprocess.check_call(['git', '-C', r, 'apply', os.path.join(d, 'patch.diff')])
    p = subprocess.run(['bash', os.path.join(d, 'demo.sh')], cwd=r, capture_output=True, text=True)
    out.append(('demo patched', p.returncode != 0, (p.stdout + p.stderr)[-300:]))
    if tests:
      env = dict(HOME='/root', LANG='C.UTF-8', PATH='/usr/bin:/bin', PYTHONPATH=r, PYTHONHASHSEED='0',
                 PYTHONDONTWRITEBYTECODE='1', JAX_PLATFORMS='cpu', NO_GCE_CHECK='true',
                 OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', TMPDIR=tmp)
      p = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '-n', '4',
                          '--timeout=600', '--continue-on-collection-errors', 'weatherbenchX'],
                         cwd=r, env=env, capture_output=True, text=True)
      base = '172 passed' in p.stdout
      out.append(('tests', base, p.stdout[-900:] if not base else ''))
  finally:
    shutil.rmtree(tmp)
  return i, out

RESULTS = {}

def check(i, tier='quick'):
  d = os.path.join(V, 'seeded', i)
  prop = json.load(open(os.path.join(d, 'meta.json')))['property']
  tmp = tempfile.mkdtemp(prefix='seed_')
  try:
    r = os.path.join(tmp, 'repo'); copy(r)
    subprocess.check_call(['git', '-C', r, 'apply', os.path.join(d, 'patch.diff')])
    env = dict(os.environ, SYMX_REPO=r, VERIF_TIER=tier, SYMX_EVIDENCE=tmp)
    p = subprocess.run([os.path.join(V, 'check'), prop], env=env, capture_output=True, text=True)
    caught = p.returncode == 1 and f'VIOLATION property={prop}' in p.stdout
    how = sorted({l.split(' / ')[0].strip() for l in p.stdout.splitlines() if l.startswith('  ') and ' / ' in l})
    RESULTS[i] = f'{prop} {tier} ({"; ".join(how[:3])})' if caught else f'missed by {prop} {tier}'
    return i, caught, p.returncode, p.stdout[-700:] + p.stderr[-300:]
  finally:
    shutil.rmtree(tmp)

if __name__ == '__main__':
  mode, ids = sys.argv[1], sys.argv[2:]
  specs = {s['id']: s for s in seeds_spec.SEEDS}
  if mode == 'write':
    for s in seeds_spec.SEEDS:
      if not ids or s['id'] in ids: write(s); print('wrote', s['id'])
  else:
    ids = ids or sorted(os.listdir(os.path.join(V, 'seeded')))
    with concurrent.futures.ThreadPoolExecutor(3 if mode == 'verify' else 4) as ex:
      if mode == 'verify':
        for i, out in ex.map(verify, ids):
          print(i, 'OK' if all(o[1] for o in out) else 'BAD')
          for n, ok, txt in out:
            if not ok: print('   ', n, txt)
      else:
        for i, c, rc, txt in ex.map(check, ids):
          print(i, 'CAUGHT' if c else f'MISSED rc={rc}')
          if not c: print(txt)
          f = os.path.join(V, 'tools', 'seed_results.json')
          old = json.load(open(f)) if os.path.exists(f) else {}
          old.update(RESULTS)
          json.dump(dict(sorted(old.items())), open(f, 'w'), indent=1)
