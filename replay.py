#!/usr/bin/env python
"""replay.py FILE: run a recorded plan again; exit 1 when it fails the same way, 0 when it does not fail,
3 when it fails differently."""
import json
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
env = dict(os.environ, PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1', PYTHONPATH=HERE)
path = os.path.abspath(sys.argv[1])
with open(path) as f:
    rep = json.load(f)
p = subprocess.run([sys.executable, '-m', 'sim.worker', '--replay', path], cwd=HERE, env=env, capture_output=True, text=True)
lines = [x for x in p.stdout.splitlines() if x.startswith('R ')]
if not lines:
    sys.exit('replay died: ' + p.stderr[-2000:])
res = json.loads(lines[0][2:])
for x in res['lines'][-60:]:
    print(x[:400])
print('recorded :', rep.get('digest'), (rep.get('violation') or {}).get('cls'))
print('replayed :', res['digest'], res['violation'])
if not res['violation']:
    sys.exit(0)
sys.exit(1 if res['violation']['cls'] == rep['violation']['cls'] and rep.get('digest') in (None, res['digest']) else 3)
