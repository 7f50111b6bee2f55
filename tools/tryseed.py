#!/usr/bin/env python3
"""Confirm planted bugs and say which checks catch them.
usage: tryseed.py [--notest] [--checks own|all|none|C01,C02] [-j N] ID ...
Works in scratch clones of /repo (LOM_REPO tells the checks which tree to look at)."""
import json, os, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = sys.argv[1:]
notest = '--notest' in args
args = [a for a in args if a != '--notest']
checks, J = 'own', 2
if '--checks' in args:
    i = args.index('--checks'); checks = args[i + 1]; del args[i:i + 2]
if '-j' in args:
    i = args.index('-j'); J = int(args[i + 1]); del args[i:i + 2]
ids = args or sorted(os.listdir(os.path.join(H, 'seeded')))
ALL = sorted(c['property'] for c in json.load(open(os.path.join(H, 'MANIFEST.json')))['checks'])
STABLE = json.load(open('/opt/vp/BASELINE.json'))['stable']


def run(cmd, **k):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def check(c, repo, verif):
    e = dict(os.environ, VERIF_TIER='quick', VERIF_SEED='1', LOM_REPO=repo)
    t = time.time()
    r = run(['python3', 'check.py', c], cwd=verif, env=e)
    v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION property=' + c)]
    return c, r.returncode, bool(v), time.time() - t, r.stdout


def stable(repo, scratch):
    e = dict(os.environ, NUMBA_DISABLE_JIT='1', PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', MPLBACKEND='Agg',
             MPLCONFIGDIR=scratch, OPENBLAS_NUM_THREADS='1', PYTHONPATH=repo)
    miss = []
    by = {}
    for s in STABLE:
        m, t = s.split('::'); by.setdefault(m, []).append(t)
    for m, ts in by.items():
        f = m.replace('.', '/') + '.py'
        x = os.path.join(scratch, m + '.xml')
        with open(os.devnull) as nul:
            run(['timeout', '-k', '10', '400', '/opt/venv/bin/python', '-m', 'pytest', f, '-q', '-p', 'no:cacheprovider',
                 '--tb=no', '--timeout=300', '-p', 'no:xdist', '--randomly-seed=0', '--randomly-dont-reorganize',
                 '-o', 'junit_family=xunit2', '--junitxml', x], cwd=repo, env=e, stdin=nul)
        import xml.etree.ElementTree as ET
        ok = set()
        if os.path.exists(x):
            for c in ET.parse(x).iter('testcase'):
                if not any(k.tag in ('failure', 'error', 'skipped') for k in c):
                    ok.add(c.get('name'))
        miss += [m + '::' + t for t in ts if t not in ok]
    return miss


def one(i):
    d = os.path.join(H, 'seeded', i)
    meta = json.load(open(os.path.join(d, 'meta.json')))
    out = [i, meta['property']]
    S = tempfile.mkdtemp(prefix='ts_')
    repo, verif = S + '/repo', S + '/verif'
    try:
        run(['git', 'clone', '-q', '/repo', repo])
        run(['git', 'clone', '-q', H, verif])
        run(['cp', '-a', H + '/harness', H + '/spec', H + '/check.py', verif + '/'])
        r0 = run(['bash', os.path.join(d, 'demo.sh')], cwd=repo)
        out.append('demo0=%d' % r0.returncode)
        a = run(['git', '-C', repo, 'apply', os.path.join(d, 'patch.diff')])
        assert a.returncode == 0, a.stdout
        r1 = run(['bash', os.path.join(d, 'demo.sh')], cwd=repo)
        out.append('demo1=%d (%s)' % (r1.returncode, r1.stdout.strip().splitlines()[-1][:70] if r1.stdout.strip() else ''))
        if r0.returncode:
            print(r0.stdout[-800:])
        if not notest:
            out.append('missing=%s' % stable(repo, S))
        cs = [meta['property']] if checks == 'own' else ALL if checks == 'all' else checks.split(',')
        if checks != 'none':
            for c in cs:
                c, rc, v, t, o = check(c, repo, verif)
                if rc == 1 and v:
                    out.append('%s:CAUGHT' % c)
                elif rc != 0:
                    out.append('%s:rc%d?' % (c, rc)); print(o[-1500:])
                elif len(cs) == 1:
                    out.append('%s:missed' % c)
    finally:
        shutil.rmtree(S, ignore_errors=True)
    print(' '.join(out), flush=True)


with ThreadPoolExecutor(J) as ex:
    list(ex.map(one, ids))
