"""Writes MANIFEST.json from the checks present."""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.join(here, '..')
props = [json.loads(l) for l in open(os.path.join(root, 'properties.jsonl'))]
NA = json.load(open(os.path.join(here, 'not_applicable.json')))
checks, na = [], []
for p in props:
  i = p['id']
  f = os.path.join(root, 'checks', i + '.py')
  if os.path.exists(f) and i not in NA:
    src = open(f).read()
    checks.append(dict(
        property=i, quick_cmd=f'VERIF_TIER=quick ./check {i}',
        thorough_cmd=f'VERIF_TIER=thorough ./check {i}',
        evidence_file=f'evidence/{i}.json',
        technique='bounded symbolic execution of the real numpy/xarray code with z3 (symbolic array elements), counterexamples replayed',
        level='model_checking',
        level_note='Bounded: the real functions run on arrays of symbolic reals/NaNs/bools/ints; z3 decides each assertion for all values within the bounds in the evidence file. Floats are extended reals (no rounding). Trusted: symx numpy semantics (cross-validated against numpy on every run), z3.'))
  else:
    na.append(dict(property=i, reason=NA.get(i, 'check not built yet')))
m = dict(version=1, setup_cmd='./setup.sh', checks=checks, not_applicable=na,
         notes='Every check exits 0 (held), 1 (VIOLATION, replayed on the real code) or 2 (inconclusive).')
json.dump(m, open(os.path.join(root, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'n/a')
