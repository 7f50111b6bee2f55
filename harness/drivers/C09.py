"""What is recorded, and that each iteration updates everything free exactly once."""
from common import *
import lifecycle as lc


def jobs(tier, seed):
    n = 480 if tier == 'quick' else 8000
    return [dict(tag='rec', r=r, seed=seed) for r in range(n)] + [dict(tag='long', r=r, seed=seed) for r in range(n // 30)]


def observe(job, ev):
    long = job['tag'] == 'long'
    rng = rng_for(*['C09', job['r'], job['seed']] + ['long'] * long)
    np.random.seed(int(rng.integers(0, 2**31)))
    kind = lc.KINDS[job['r'] % len(lc.KINDS)]
    mc = lc.machine_of(kind, rng)
    lc.perturb(mc, rng)
    for run in range(1 if long else 1 + job['r'] % 3):
        if run and rng.random() < .7:
            lc.perturb(mc, rng)
        mc.anneal = bool(rng.random() < .15)
        fix = 0 if mc.anneal else int(rng.choice([0, 0, 1, 3]))
        lc.record(mc, ev, tag='%s/run%d' % (kind, run + 1), n=int(rng.choice([33, 65, 129, 130, 258] if long else [0, 1, 2, 3, 5, 9])), W=int(rng.choice([1, 2, 3, 5])),
                  eps=float(rng.choice([1.3e-4, .03, 1.5])), bmin=int(rng.choice([0, 1, 3])),
                  bmax=int(rng.choice([0, 2, 6, 9])), fix=fix)
