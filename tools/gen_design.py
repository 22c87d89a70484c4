"""Writes DESIGN.md.  Run with PYTHONPATH=/verif:/repo /opt/venv/bin/python."""
from absl import flags as absl_flags
import importlib, json, os, sys, textwrap
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.join(here, '..')
sys.path.insert(0, os.path.abspath(here))
from design_notes import NOTES
out = [open(os.path.join(here, 'design_head.md')).read()]
props = [json.loads(l) for l in open(os.path.join(root, 'properties.jsonl'))]
known = json.load(open(os.path.join(root, 'known_findings.json')))
W = lambda s, ind='': textwrap.fill(' '.join(s.split()), 79, initial_indent=ind,
                                   subsequent_indent='  ' if ind else '')
out.append('## 2. Properties\n')
out.append('All are claimed, none is not_applicable.  Cost is the wall time of the quick '
           'tier on this sandbox (8 cores).\n')
for p in props:
  i = p['id']
  for n in set(absl_flags.FLAGS) & {'output_dir'}:   # C26 and C27 each load a script
    delattr(absl_flags.FLAGS, n)
  spec = importlib.import_module('checks.' + i).SPEC
  note = NOTES[i]
  cost = ''
  out.append(f"### {i} {p['title']}\n")
  out.append(W('**Oracle and claims.** ' + note['oracle']) + '\n')
  out.append(W('**Code executed.** ' + ', '.join(f'`{f}`' for f in spec.functions) + '.') + '\n')
  out.append(W('**Bounds.** ' + spec.bounds + '.') + '\n')
  if spec.assumptions:
    out.append('**Assumed / outside the claim.**\n')
    out += [W(a, '- ') for a in spec.assumptions]
    out.append('')
  if getattr(spec, 'stubs', None):
    out.append(W('**Stubs.** ' + '; '.join(spec.stubs) + '.') + '\n')
  if note.get('why'):
    out.append(W('**Beyond the tests.** ' + note['why']) + '\n')
  if note.get('notes'):
    out.append(W('**Notes.** ' + note['notes']) + '\n')
  out.append(f"**Cost.** about {note['cost']}.\n")
out.append('## 3. Defects of weatherbenchX found\n')
out.append('Repaired by minimal `fix:` commits in /repo (each was first shown by a replayed '
           'counterexample; the suite still passes):\n')
for f in known['fixed']:
  f = f if isinstance(f, str) else f['text']
  out.append(W(f.replace('fixed: property=', ''), '- '))
out.append('\nRecorded, not repaired (known findings, printed as KNOWN-FINDING; matched by '
           'harness and cell label, so any other violation of the same property is still reported):\n')
seen = set()
for f in known['findings']:
  if f['what'] not in seen:
    seen.add(f['what'])
    out.append(W(f"{f['property']}: {f['what']}.", '- '))
out.append(W('They are recorded because a repair would have to put array contents into a '
             'statistic name (a design decision for the maintainers: names are used as keys '
             'of stored files).') + '\n')
out.append('### False alarms met and removed\n')
out += [W(s, '- ') for s in NOTES['false alarms']]
out.append('\n## 4. Planted bugs\n')
out.append('Each is in `seeded/<id>/` (patch, demonstration, meta); `tools/mkseed.py verify` '
           'confirms that it builds, passes the stable tests and that its demonstration fails '
           'only with it; `tools/mkseed.py check` runs the property\'s quick check on it.\n')
res = {}
rf = os.path.join(here, 'seed_results.json')
if os.path.exists(rf):
  res = json.load(open(rf))
out.append('| seed | property | what it breaks | caught by |')
out.append('|---|---|---|---|')
for d in sorted(os.listdir(os.path.join(root, 'seeded'))):
  m = json.load(open(os.path.join(root, 'seeded', d, 'meta.json')))
  out.append(f"| {d} | {m['property']} | {' '.join(m['what_it_breaks'].split())} | {res.get(d, '?')} |")
out.append('\n' + NOTES['seeding'])
open(os.path.join(root, 'DESIGN.md'), 'w').write('\n'.join(out) + '\n')
