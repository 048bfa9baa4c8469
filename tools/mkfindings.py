"""Writes known_findings.json: repaired defects (which suppress nothing) and recorded findings."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
log = subprocess.check_output(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s']).decode().splitlines()
PROPS = {
 'select all keys of a source': 'C03', 'leave out keys with no data': 'C01', 'do not bring back deselected': 'C03',
 'slice trains by an ID': 'C03', 'get_data_counts() for control': 'C02', 'get_series() when a file': 'C02',
 'get_dask_array() when part': 'C02', 'read from collections including': 'C02', "open runs when the cache can't be written": 'C10',
 "open runs when the cache can't be read": 'C10', 'use --source and --key': 'C13', "keep caller's metadata": 'C20',
 'stop a streamer reliably': 'C13', 'read control data through its index': 'C14', 'write control data missing': 'C14',
 'report errors while writing': 'C14', 'reopen and link to files': 'C15',
}
EXTRA = json.load(open(V + '/tools/fixes.json')) if os.path.exists(V + '/tools/fixes.json') else {}
PROPS.update(EXTRA)
fixed = []
for l in log:
    h, _, s = l.partition(' ')
    if not s.startswith('fix:'):
        continue
    p = [v for k, v in PROPS.items() if k in s]
    assert len(p) == 1, (l, p)
    fixed.append('fixed: property=%s %s %s' % (p[0], h, s[5:]))
f = V + '/known_findings.json'
d = json.load(open(f)) if os.path.exists(f) else {'findings': []}
d['fixed'] = fixed
json.dump(d, open(f, 'w'), indent=1)
print(len(fixed), 'fixed', len(d['findings']), 'findings')
