#!/usr/bin/env python3
"""Decides one property: check.py C01 [--keep]

1. records observations of the code in /repo (harness/drivers/<id>.py, run with the
   project's interpreter),
2. has TLC validate every observation against the specification (spec/*.tla),
3. has TLC model-check the design specification the property rests on,
4. writes evidence/<id>.json, prints VIOLATION / KNOWN-FINDING lines.
"""
import sys, os, json, re, subprocess, tempfile, time, shutil, threading
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'harness'))
from registry import CHECKS                                      # noqa: E402

SPEC = os.path.join(HERE, 'spec')
PY = '/opt/venv/bin/python'
TLC_TIMEOUT = 3000


class Machinery(Exception):
    pass


class Tlc:
    def __init__(self, work):
        self.work = work
        self.n = 0
        self.lock = threading.Lock()

    def run(self, module, cfg, env=None, workers=4, timeout=TLC_TIMEOUT, heap='6g'):
        with self.lock:
            self.n += 1
            k = self.n
        d = os.path.join(self.work, 'tlc%d' % k)
        os.makedirs(d)
        cfgf = os.path.join(d, 'run.cfg')
        with open(cfgf, 'w') as f:
            f.write(cfg)
        e = dict(os.environ)
        e.update(env or {})
        e['JAVA_TOOL_OPTIONS'] = '-Xss32m'
        cmd = ['tlc', '-workers', str(workers), '-metadir', os.path.join(d, 'meta'),
               '-noGenerateSpecTE', '-config', cfgf, os.path.join(SPEC, module + '.tla')]
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           env=e, cwd=d, timeout=timeout)
        shutil.rmtree(os.path.join(d, 'meta'), ignore_errors=True)
        out = p.stdout
        m = re.search(r'(\d+) states generated, (\d+) distinct states found, (\d+) states left', out)
        r = dict(rc=p.returncode, out=out, ok='Model checking completed. No error has been found.' in out,
                 gen=int(m.group(1)) if m else 0, distinct=int(m.group(2)) if m else 0)
        return r


VIOL = re.compile(r'<<\s*"VIOL",\s*(\d+),\s*"([^"]*)"\s*>>')


def validate(tlc, events, chk, work):
    """(violations {(index, clause)}, stats); events are 0-based here, 1-based in TLC"""
    viol, gen, dist = set(), 0, 0
    began = time.time()

    def once(idx, label):
        nonlocal gen, dist
        path = os.path.join(work, 'ev_%s.ndjson' % label)
        with open(path, 'w') as f:
            for i in idx:
                f.write(json.dumps(events[i]) + '\n')
        nc = max(1, min(32, len(idx)))
        w = 'Trace' if chk['walks'] else 'Ev'
        cfg = ('INIT %sInit\nNEXT %sNext\nCHECK_DEADLOCK FALSE\nCONSTANT Failed <- %s\n'
               % (w, w, chk['failed']))
        cfg += ''.join('CONSTANT %s = %s\n' % kv for kv in sorted(chk['consts'].items()))
        r = tlc.run(chk['module'], cfg, dict(TRACE=path, CHUNKS=str(nc), PROP=chk['id']), workers=8)
        os.unlink(path)
        gen += r['gen']
        dist += r['distinct']
        if r['ok']:
            if (r['distinct'] < len(idx) + nc) if chk['walks'] else (r['distinct'] != len(idx) + nc):
                raise Machinery('TLC consumed %d states of %d+%d' % (r['distinct'], len(idx), nc))
            for a, b in VIOL.findall(r['out']):
                viol.add((idx[int(a) - 1], b))
            return True
        for a, b in VIOL.findall(r['out']):         # what was reported before the failure stands
            viol.add((idx[int(a) - 1], b))
        # the observation TLC was evaluating
        at = re.findall(r'/\\ %s = (\d+)' % ('idx' if chk['walks'] else 'pos'), r['out'])
        once.at = idx[int(at[-1]) - 1] if at and 1 <= int(at[-1]) <= len(idx) else None
        err = [l for l in r['out'].splitlines() if l.strip()][-40:]
        once.last = '\n'.join(err)
        if 'Parsing or semantic analysis failed' in r['out']:
            raise Machinery(r['out'][r['out'].find('Semantic errors'):][:3000])
        if os.environ.get('VERIF_DEBUG'):
            print('\n'.join(l for l in err if not l.startswith(('Parsing', 'Semantic', 'Computed', 'Linting')))[-2500:])
        return False

    todo = [list(range(len(events)))]
    k = 0
    while todo:
        idx = todo.pop()
        k += 1
        if k > 60:
            raise Machinery('TLC cannot evaluate many observations:\n' + once.last)
        if not idx or once(idx, k):
            continue
        if once.at is not None and len(idx) > 1:
            viol.add((once.at, 'malformed'))
            events[once.at]['tlc_error'] = once.last[-1500:]
            if sum(1 for v in viol if v[1] == 'malformed') >= 3 or time.time() - began > 240:
                break
            todo.append([i for i in idx if i != once.at])
        elif len(idx) == 1:
            viol.add((idx[0], 'malformed'))
            events[idx[0]]['tlc_error'] = once.last[-1500:]
            if sum(1 for v in viol if v[1] == 'malformed') >= 3:
                break
        else:
            h = len(idx) // 2
            todo += [idx[h:], idx[:h]]
    return viol, dict(gen=gen, distinct=dist)


def known(prop):
    out = {}
    path = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r'finding: property=(\S+) sig=(\S+) (.*)', line.strip())
            if m and m.group(1) == prop:
                out[m.group(2)] = m.group(3)
    return out


def signature(ev, clause):
    return re.sub(r'\s+', '_', '%s/%s' % (ev.get('tag', '-'), clause))


def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in sys.argv:
        tier = 'thorough'
    seed = int(os.environ.get('VERIF_SEED', '1'))
    chk = CHECKS[prop]
    t0 = time.time()
    work = tempfile.mkdtemp(prefix='lomcheck_')
    evdir = os.path.join(HERE, 'evidence')
    repdir = os.path.join(evdir, 'replays')
    os.makedirs(repdir, exist_ok=True)
    for f in os.listdir(repdir):
        if f.startswith(prop + '_'):
            os.unlink(os.path.join(repdir, f))
    try:
        tlc = Tlc(work)
        evf = os.path.join(work, 'events.ndjson')
        env = dict(os.environ, VERIF_TIER=tier, VERIF_SEED=str(seed), NUMBA_DISABLE_JIT='1',
                   PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg', OPENBLAS_NUM_THREADS='1',
                   OMP_NUM_THREADS='1', MPLCONFIGDIR=os.path.join(work, 'mpl'),
                   PYTHONHASHSEED='0', HOME=work)
        env.pop('PYTHONPATH', None)
        drv = subprocess.Popen([PY, '-B', os.path.join(HERE, 'harness', 'run_driver.py'), prop, evf],
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env, cwd=work)
        # design model checking runs meanwhile
        mc = []

        def model():
            for module, cq, ct in [] if os.environ.get('VERIF_NOMC') else chk['mc']:
                if tier != 'thorough' and cq is None:
                    continue
                cfg = open(os.path.join(SPEC, ct if tier == 'thorough' else cq)).read()
                mc.append(((ct if tier == 'thorough' else cq).replace('.cfg', ''), tlc.run(module, cfg, workers=4 if tier == 'quick' else 8)))
        errs = []

        def guard():
            try:
                model()
            except Exception as e:
                errs.append(e)
        th = threading.Thread(target=guard)
        th.start()
        dout, _ = drv.communicate()
        t1 = time.time()
        if drv.returncode != 0 or not os.path.exists(evf):
            th.join()
            raise Machinery('driver failed (%s):\n%s' % (drv.returncode, dout[-4000:]))
        events = [json.loads(l) for l in open(evf)]
        skipped = [e for e in events if e['op'] == 'skip']
        events = [e for e in events if e['op'] != 'skip']
        if not events:
            raise Machinery('no observations:\n' + dout[-2000:])
        viol, st = validate(tlc, events, chk, work)
        t2 = time.time()
        th.join()
        if errs:
            raise errs[0]
        for module, r in mc:
            if not r['ok']:
                raise Machinery('design specification %s fails:\n%s' % (module, r['out'][-4000:]))

        kn = known(prop)
        new, hits = [], {}
        for i, clause in sorted(viol):
            s = signature(events[i], clause)
            if s in kn:
                hits.setdefault(s, []).append(i)
            else:
                new.append((i, clause))
        if not new and len(skipped) > len(events):
            raise Machinery('%d of %d observations could not be made: %s'
                            % (len(skipped), len(events) + len(skipped), skipped[0]))
        for s in sorted(hits):
            print('KNOWN-FINDING: property=%s %s (%s, %d observations)' % (prop, kn[s], s, len(hits[s])))
        tags = {}
        for e in events:
            k = str(e.get('tag', e['op'])).split('/')[0]
            tags[k] = tags.get(k, 0) + 1
        small = sorted(range(len(events)), key=lambda i: len(json.dumps(events[i])))
        samples = [events[small[len(small) // 3]], events[small[len(small) // 2]]]
        samples = [json.loads(json.dumps(s)) if len(json.dumps(s)) < 4000 else str(s)[:4000] for s in samples]
        mcst = dict((m, dict(states=r['distinct'], transitions=r['gen'])) for m, r in mc)
        evd = dict(property=prop, tier=tier, seed=seed, level='model_checking',
                   coverage=dict(
                       states=st['distinct'] + sum(r['distinct'] for _, r in mc),
                       transitions=st['gen'] + sum(r['gen'] for _, r in mc),
                       traces_validated_against_impl=len(events),
                       model_checked=mcst,
                       observations_by_kind=dict(sorted(tags.items())[:200]),
                       observations_not_made=len(skipped),
                       violating_observations=len({i for i, _ in viol}),
                       known_finding_observations=sum(len(v) for v in hits.values()),
                       steps_validated=sum(len(e['ev']) if isinstance(e.get('ev'), list) else 1 for e in events),
                       samples=samples),
                   assumptions=chk.get('assumptions', []),
                   wall_s=round(time.time() - t0, 2), violations=len(new))
        with open(os.path.join(evdir, prop + '.json'), 'w') as f:
            json.dump(evd, f, indent=1)
        print('%s: %d observations (%d not made), driver %.1fs, TLC %.1fs, total %.1fs; %d model states'
              % (prop, len(events), len(skipped), t1 - t0, t2 - t1, time.time() - t0,
                 sum(r['distinct'] for _, r in mc)))
        if new:
            bykey = {}
            for i, c in new:
                bykey.setdefault(signature(events[i], c), []).append(i)
            for j, (s, idx) in enumerate(sorted(bykey.items(), key=lambda kv: -len(kv[1]))[:6]):
                i = min(idx, key=lambda q: len(json.dumps(events[q])))
                rp = os.path.join(repdir, '%s_%02d.json' % (prop, j))
                with open(rp, 'w') as f:
                    json.dump(dict(property=prop, clause=s, observations=len(idx), event=events[i],
                                   how='check.py %s with VERIF_SEED=%d VERIF_TIER=%s' % (prop, seed, tier)),
                              f, indent=1)
                print('  violated: %s (%d observations) %s' % (s, len(idx), str(events[i].get('what', ''))[:160]))
                print('VIOLATION property=%s replay=%s' % (prop, rp))
            return 1
        return 0
    finally:
        if '--keep' in sys.argv:
            print('kept', work)
        else:
            shutil.rmtree(work, ignore_errors=True)


if __name__ == '__main__':
    try:
        sys.exit(main())
    except Machinery as e:
        print('MACHINERY ERROR: %s' % e)
        sys.exit(2)
