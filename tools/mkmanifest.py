"""Writes MANIFEST.json from properties.jsonl and the checks present."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = ('Bounded: every path of the real functions is executed symbolically from the current source and every '
        'assertion is decided by z3 (after normalisation) for all values on it, within the bounds and outside-of-scope '
        'list the evidence file repeats from the check module; counterexamples are replayed on the plain code '
        'before they are reported.')
PENDING = 'No check built yet.'
checks, na = [], []
for l in open(os.path.join(V, 'properties.jsonl')):
    d = json.loads(l)
    i = d['id']
    if os.path.exists(os.path.join(V, 'checks', i.lower() + '.py')):
        cmd = 'python3-vt run_check.py ' + i
        checks.append({'property': i, 'quick_cmd': cmd + ' --tier quick', 'thorough_cmd': cmd + ' --tier thorough',
                       'evidence_file': 'evidence/%s.json' % i,
                       'technique': 'symbolic execution of the Python source with z3 (bounded)',
                       'level': 'model_checking', 'level_note': NOTE})
    else:
        na.append({'property': i, 'reason': PENDING})
m = {'version': 1, 'setup_cmd': 'python3-vt -B -m sx.selftest 600', 'checks': checks}
if na: m['not_applicable'] = na
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'pending')
