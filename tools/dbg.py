#!/usr/bin/env python3
"""dbg.py REPLAY [N]: rerun the scenario of a replay file and show the last events of its trace."""
import json, sys, subprocess, os, re
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
r = json.load(open(sys.argv[1])); n = int(sys.argv[2]) if len(sys.argv) > 2 else 8
print(r['why'], r['module'], 'line', r['line'])
k = 0
with open('/tmp/dbg.script', 'w') as f:
    for o in r['scenario']:
        if o['op'] == 'scn': k += 1; o = dict(o, n=k)
        f.write(json.dumps(o, separators=(',',':')) + '\n')
if os.path.exists('/tmp/dbg.trace'): os.remove('/tmp/dbg.trace')
subprocess.run([os.path.join(os.path.dirname(__file__), '../target/debug/mh'), '/tmp/dbg.script', '/tmp/dbg.trace'])
L = open('/tmp/dbg.trace').read().splitlines()
at = r['line'] if r['line'] <= len(L) else len(L)
for i, x in enumerate(L):
    if at - n <= i <= at + 1: print(i + 1, x[:700])
