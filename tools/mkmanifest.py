"""Writes MANIFEST.json from harness/plan.py and properties.jsonl."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, 'harness'))
from plan import PLAN, NOTES
props = [json.loads(l) for l in open(os.path.join(ROOT, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if i not in PLAN:
        na.append({'property': i, 'reason': 'check not built yet'})
        continue
    checks.append({
        'property': i,
        'quick_cmd': 'python3 harness/run.py %s quick' % i,
        'thorough_cmd': 'python3 harness/run.py %s thorough' % i,
        'technique': 'TLA+ specification checked with TLC; conformance by trace validation of the real code '
                     'against the specification' + ('; TLC-generated behaviours replayed'
                                                    if PLAN[i].get('mc') else ''),
        'level': 'model_checking',
        'level_note': NOTES.get(i, 'The oracle is the TLA+ specification evaluated by TLC in exact rational '
                      'arithmetic; assurance extends to the recorded scenarios (seeded, bounded in size), not to '
                      'all inputs. Trusted: TLC, spec/java/Rat.java (checked against RatRef.tla), numpy and the '
                      'Python driver which records observations without judging them.')})
m = {'version': 1, 'setup_cmd': 'python3 harness/setup.py', 'checks': checks, 'not_applicable': na,
     'notes': 'See DESIGN.md. Python never judges an observation: clause names in spec/Trace*.tla decide.'}
json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
