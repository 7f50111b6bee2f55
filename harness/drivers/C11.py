"""Annealing ramps."""
from common import *
import lifecycle as lc


def jobs(tier, seed):
    n = 400 if tier == 'quick' else 6000
    return [dict(tag='anneal', r=r, seed=seed) for r in range(n)] + [dict(tag='long', r=r, seed=seed) for r in range(n // 40)]


def observe(job, ev):
    long = job['tag'] == 'long'
    rng = rng_for(*['C11', job['r'], job['seed']] + ['long'] * long)
    np.random.seed(int(rng.integers(0, 2**31)))
    kind = lc.KINDS[job['r'] % len(lc.KINDS)]
    mc = lc.machine_of(kind, rng)
    lc.perturb(mc, rng, pfix=.1)
    for ly in mc.layers:
        ly.lbda.fixed = bool(rng.random() < .1)
        u = rng.random()
        if ly.model == 'MAX-AND' or u < .5:
            continue
        # any value can be the one that is led up to
        ly.lbda.val = float(rng.uniform(-3, -.1) if u < .7 else rng.choice([0, -8, 1e-6]) if u < .78 else
                            rng.uniform(.1, 8) if long else rng.uniform(7, 60))
    for run in range(1 + job['r'] % 2):
        mc.anneal = bool(run == 0 or rng.random() < .8)
        fix = int(rng.choice([0, 0, 0, 0, 1, 2, 6]))
        lc.record(mc, ev, tag='%s/run%d' % (kind, run + 1), n=int(rng.integers(0, 3)), W=int(rng.choice([2, 3])),
                  eps=float(rng.choice([1.3e-4, .03, 1.5])), bmin=int(rng.choice([40, 101, 130, 260] if long else [0, 1, 2, 3, 5, 7, 12])),
                  bmax=int(rng.choice([0, 4, 9, 14])), fix=fix)
