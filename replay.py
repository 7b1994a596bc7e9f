#!/usr/bin/env python3
"""replay.py <violation file>: runs the recorded setup and statement again and prints what the system answers."""
import json, sys
from pathlib import Path
ROOT = Path(__file__).resolve().parent
sys.path[:0] = [str(ROOT / 'lib'), str(ROOT / 'checks')]
import sqlcheck
from client import Client, Died
v = json.load(open(sys.argv[1]))
r = v['replay']
print('recorded:', v['what'][:2000])
if r.get('native'):
    import importlib, os, subprocess
    from client import SAN_ENV
    b = importlib.import_module(v['property'].lower()).binary(r)
    print(b, *r['args'])
    sys.exit(subprocess.run([b, *r['args']], env=dict(os.environ, **SAN_ENV, **r.get('env', {}))).returncode)
cl = Client(sqlcheck.binary())
try:
    for c, b in r.get('setup', []):
        x = cl(c, b)
        if '-v' in sys.argv: print(c, b, '->', x)
    if 'sql' in r:
        print(r['sql'], '->', json.dumps(cl(r.get('cmd', 'Q'), r['sql']))[:3000])
    if 'expected' in r: print('expected:', r['expected'][:40])
except Died as d:
    print('died on', d.cmd, d.body, '\n', d.err[:6000])
