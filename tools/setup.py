#!/usr/bin/env python3
"""Checks that the tools the framework needs are there; nothing has to be built."""
import os, subprocess, sys, shutil
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.makedirs(os.path.join(H, 'evidence', 'replays'), exist_ok=True)
assert shutil.which('tlc'), 'tlc missing'
subprocess.check_call(['/opt/venv/bin/python', '-B', '-c', 'import numpy, numba, scipy, sklearn'])
for f in sorted(os.listdir(os.path.join(H, 'spec'))):
    if f.startswith('MC_') and f.endswith('.tla') or f in ('ConformRun.tla',):
        r = subprocess.run(['tla-sany', f], cwd=os.path.join(H, 'spec'), stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0 or 'rror' in r.stdout.replace('Errors: 0', ''):
            print(r.stdout)
            sys.exit('specification %s does not parse' % f)
print('ok')
