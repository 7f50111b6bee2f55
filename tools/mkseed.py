#!/usr/bin/env python3
"""Write /verif/seeded/<id>/ from a description of the change: patch.diff, demo.sh, demo.py, meta.json.
usage: mkseed.py FILE.py  -- FILE defines SEEDS: list of dicts
   id, property, needs, breaks, edits: [(file, old, new)], demo: python source
The demo is python source run in /repo; helpers `check(cond, msg)` and `quiet()` are available."""
import json, os, subprocess, sys, runpy
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/tmp/mkseed_repo'
import shutil
shutil.rmtree(REPO, ignore_errors=True)
subprocess.run(['git', 'clone', '-q', '/repo', REPO], check=True)
SH = '''#!/bin/bash
# exit 0 if the property holds for the demonstrated case, 1 if not
D=$(cd "$(dirname "$0")" && pwd)
S=$(mktemp -d) || exit 2
trap 'rm -rf "$S"' EXIT
export NUMBA_DISABLE_JIT=1 PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg MPLCONFIGDIR="$S" OPENBLAS_NUM_THREADS=1
export PYTHONPATH="$PWD"
timeout 250 /opt/venv/bin/python -B "$D/demo.py" </dev/null
'''
PRE = '''import contextlib, io, sys
import numpy as np
np.seterr(all='ignore')


def quiet():
    return contextlib.redirect_stdout(io.StringIO())


def check(cond, msg):
    if not cond:
        print('FAILED: ' + msg)
        sys.exit(1)


with quiet():
    import lom
    import lom.auxiliary_functions as aux

'''

def git(*a):
    return subprocess.run(['git', '-C', REPO] + list(a), stdout=subprocess.PIPE, text=True, check=True).stdout

base = git('rev-list', '--max-parents=0', 'HEAD').split()[0]
pinned = '30bac3d'
for s in runpy.run_path(sys.argv[1])['SEEDS']:
    assert git('status', '--porcelain') == '', 'repo not clean'
    d = os.path.join(H, 'seeded', s['id'])
    try:
        for f, old, new in s['edits']:
            p = os.path.join(REPO, f)
            t = open(p).read()
            assert t.count(old) == 1, (s['id'], f, t.count(old), old)
            blame = git('blame', '-s', '--abbrev=7', 'HEAD', '--', f).splitlines()
            n0 = t[:t.index(old)].count('\n')
            open(p, 'w').write(t.replace(old, new))
        diff = git('diff')
        # removed lines have to be original ones
        cur = None
        bad = []
        for line in diff.splitlines():
            if line.startswith('--- a/'):
                cur = git('blame', '-s', '--abbrev=7', 'HEAD', '--', line[6:]).splitlines()
            elif line.startswith('@@'):
                n = int(line.split()[1].split(',')[0][1:]) - 1
            elif line.startswith('-'):
                if not cur[n].startswith(('^' + pinned[:6], pinned[:7], '^')):
                    bad.append(cur[n])
                n += 1
            elif line.startswith(' '):
                n += 1
        if bad:
            print('WARNING %s touches lines of fix commits:' % s['id'], *bad, sep='\n   ')
    finally:
        git('checkout', '--', '.')
    os.makedirs(d, exist_ok=True)
    open(os.path.join(d, 'patch.diff'), 'w').write(diff)
    open(os.path.join(d, 'demo.sh'), 'w').write(SH)
    os.chmod(os.path.join(d, 'demo.sh'), 0o755)
    open(os.path.join(d, 'demo.py'), 'w').write(PRE + s['demo'].strip('\n') + "\nprint('ok')\n")
    json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']},
              open(os.path.join(d, 'meta.json'), 'w'), indent=1)
    print('wrote', s['id'])
shutil.rmtree(REPO, ignore_errors=True)
