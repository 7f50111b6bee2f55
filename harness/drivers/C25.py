"""The same seed gives the same machine, whatever happened before and wherever it runs."""
import subprocess, gc
from common import *
import lifecycle as lc
import twins
import lom.experiments as ex


def jobs(tier, seed):
    k = 1 if tier == 'quick' else 15
    return ([dict(tag='process', r=r, seed=seed, n=9 if tier == 'quick' else 40) for r in range(8 * (1 if tier == 'quick' else 4))] +
            [dict(tag='again', r=r, seed=seed) for r in range(200 * k)])


def pick(rng, xs):
    return xs[int(rng.integers(0, len(xs)))]


def may(fn):
    """splits of too few cells refuse"""
    try:
        return fn()
    except ValueError as e:
        return type(e).__name__


def scenario(r, seed):
    """build, infer, change, infer, ask: everything random comes from the global generator"""
    rng = rng_for('C25', 'scenario', r, seed)          # which scenario
    np.random.seed(int(rng.integers(0, 2**31)))
    kinds = lc.KINDS + ['ibp', 'generators', 'experiments']
    kind = kinds[r % len(kinds)]
    out = {}
    if kind == 'generators':
        x2, x3 = data(rng, (4, 3), .2), data(rng, (2, 3, 2), .1)
        out['noise'] = [twins.nums(aux.add_bernoulli_noise(x3, .4)), twins.nums(aux.add_bernoulli_noise_2d(x2, .4)),
                        twins.nums(aux.add_bernoulli_noise_2d_biased(x2, .2, .7))]
        np.random.seed(int(rng.integers(0, 2**31)))
        out['split'] = [may(lambda: [twins.nums(a) for a in aux.split_test_train(x2, p=.4)[:1]]),
                        may(lambda: [twins.nums(a) for a in ex.split_train_test(x3, split=.3)])]
        out['products'] = [twins.nums(a) for a in aux.generate_orm_product(N=4, D=4, L=2)]
        out['tensor'] = [twins.nums(np.asarray(a)) for a in ex.generate_random_tensor(2, (2, 2, 3), noise=.2)[:2]]
        out['matrix'] = twins.nums(aux.random_machine_matrix(.4, (3, 4)))
        return kind, out
    if kind == 'experiments':
        x = data(rng, (4, 3), 0)
        mask = rng.random(x.shape) < .3
        train = np.where(mask, 0, x).astype(np.int8)
        res = ex.LOM_predictive([x, train, mask, pick(rng, ALL36), 2, 0, .5, False])
        out['predictive'] = [twins.nums(float(res[0][0])), [twins.nums(f) for f in res[1]]]
        out['recon'] = [twins.nums(a) for a in ex.tensorm_reconstruct(data(rng, (2, 2, 2), 0), 2)[::2]]
        return kind, out
    if kind == 'ibp':
        mc, _, lay = build(data(rng, (int(rng.integers(2, 5)), int(rng.integers(1, 5))), .1), 'OR-AND-IBP', int(rng.integers(1, 3)))
        lay.alpha = pick(rng, [None, 1., 3.])
    else:
        mc = lc.machine_of(kind, rng)                   # initial factors come from the global generator
        lc.perturb(mc, rng)
        for l in mc.layers:
            if l.model in CLANS:
                l.auto_clean = bool(rng.random() < .2)
                l.auto_reset = not l.auto_clean and bool(rng.random() < .2)
        mc.anneal = bool(rng.random() < .2)
    out['start'] = [twins.nums(m.val) for m in mc.members]
    for run in range(int(rng.integers(1, 3))):
        kw = twins.random_settings(rng, mc.anneal)
        mc.infer(**kw)
        out['run%d' % run] = twins.results(mc)
        if any(int(l.size) == 0 for l in mc.layers):
            break
    return kind, out


def flat(d):
    o = {}
    for k, v in d.items():
        if isinstance(v, dict):
            o.update({k + '/' + q: w for q, w in v.items()})
        else:
            o[k] = v
    return twins.small(o)


def disturb(rng):
    """other activity in the process"""
    random.seed(int(rng.integers(0, 2**31)))
    np.random.seed(int(rng.integers(0, 2**31)))
    for _ in range(int(rng.integers(1, 3))):
        r = int(rng.integers(0, 1000))
        try:
            scenario(r, 1234567)
        except (Timeout, KeyboardInterrupt, MemoryError):
            raise
        except Exception:
            pass
    np.random.rand(int(rng.integers(1, 1000)))
    if rng.random() < .3:
        gc.collect()


def again(job, ev, rng):
    res = []
    for k in range(2):
        if k:
            disturb(rng)
        with twins.poison(-1 - 100 * k if job['r'] % 3 else 1 + 2 * k):
            kind, o = scenario(job['r'], job['seed'])
        res.append(flat(o))
    ev.append(dict(op='twin', tag='again/' + kind, a=res[0], b=res[1]))


CHILD = """
import sys, json
sys.path.insert(0, %r)
from drivers.C25 import *
out = []
with Quiet():
    for r in %r:
        kind, o = scenario(r, %d)
        out.append([kind, flat(o)])
print(json.dumps(out))
"""


def process(job, ev, rng):
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    rs = [100000 + job['r'] * 1000 + i for i in range(job['n'])]
    res = []
    for k in range(2):
        env = dict(os.environ, PYTHONHASHSEED=str(int(rng.integers(1, 2**31))), PYTHONDONTWRITEBYTECODE='1', LOM_REPO=REPO)
        if k:
            env.update(TZ='Asia/Tokyo', LC_ALL='C', USER='someone', EXTRA='x' * int(rng.integers(1, 3000)))
        p = subprocess.run([sys.executable, '-c', CHILD % (here, rs, job['seed'])], env=env, stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, text=True, cwd='/' if k else here, timeout=300)
        if p.returncode:
            raise RuntimeError('child: ' + p.stderr.strip().splitlines()[-1][:150])
        res.append(json.loads(p.stdout.strip().splitlines()[-1]))
    for r, a, b in zip(rs, *res):
        ev.append(dict(op='twin', tag='process/' + a[0], a=a[1], b=b[1]))
        kind, o = scenario(r, job['seed'])
        ev.append(dict(op='twin', tag='process/' + a[0], a=a[1], b=json.loads(json.dumps(flat(o)))))


def observe(job, ev):
    rng = rng_for('C25', job['tag'], job['r'], job['seed'])
    dict(again=again, process=process)[job['tag']](job, ev, rng)
