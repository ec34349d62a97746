"""Writes contracts/baseline.json: for each target, the fingerprint of the source it was discharged for (by hand, after
a change of /repo or of the contracts)."""
import json
import os
import subprocess
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
mods = sys.argv[1:] or sorted(f[:-3] for f in os.listdir(HERE + '/contracts') if f.startswith('c') and f.endswith('.py'))
path = HERE + '/contracts/baseline.json'
base = json.load(open(path)) if os.path.exists(path) else {}
for m in mods:
    subprocess.run(['python3-vt', HERE + '/prove.py', m, '--out', '/tmp/mkbase.json'], check=True)
    d = {}
    for r in json.load(open('/tmp/mkbase.json')):
        ok = r['status'] == 'ok' and r['obligations'] and all(o['status'] == 'proved' for o in r['obligations'])
        if r.get('fingerprint'):
            d[r['name']] = dict(fingerprint=r['fingerprint'], proved=bool(ok), opaque=r['opaque'], slow=r.get('wall_s', 0) > 10)
        if not ok:
            print(m, r['name'], r['status'], r.get('reason', ''), [o['id'] for o in r['obligations'] if o['status'] != 'proved'])
    base[m] = d
json.dump(base, open(path, 'w'), indent=1, sort_keys=True)
