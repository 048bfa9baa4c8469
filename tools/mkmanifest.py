"""Writes MANIFEST.json from properties.jsonl and the property modules that exist."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = {}
NA = {}
checks, na = [], []
for line in open(V + '/properties.jsonl'):
    d = json.loads(line)
    i = d['id']
    if i in NA:
        na.append({'property': i, 'reason': NA[i]})
    elif os.path.exists('%s/dst/props/%s.py' % (V, i.lower())):
        checks.append({
            'property': i,
            'quick_cmd': '/opt/venv/bin/python -m dst.run %s --tier quick' % i,
            'thorough_cmd': '/opt/venv/bin/python -m dst.run %s --tier thorough' % i,
            'evidence_file': 'evidence/%s.json' % i,
            'technique': 'deterministic simulation with fault injection (seeded search over plans, schedules and faults)',
            'level': 'exploration',
            'level_note': NOTES.get(i, 'Seeded search: no violation in the simulated runs explored (counts in the '
                                       'evidence). Trusts the I/O seam, the simulated facility and the reference model.'),
        })
    else:
        na.append({'property': i, 'reason': 'Check not built yet.'})
m = {'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': checks, 'not_applicable': na,
     'hooks': {'guard': 'none', 'enable': 'No hooks in /repo: all seams are below it (LD_PRELOAD I/O shim, replaced '
               'threading, clock and zmq modules at import).', 'source_commits': []},
     'notes': 'Exit 2 of a check is an error of the harness, never a verdict. Replay: '
              '/opt/venv/bin/python -m dst.run --replay FILE'}
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'n/a')
