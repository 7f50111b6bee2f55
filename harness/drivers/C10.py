"""When burn-in stops, under many settings of window, tolerance, minimum, maximum and held iterations."""
from common import *
import lifecycle as lc


def jobs(tier, seed):
    n = 480 if tier == 'quick' else 8000
    return ([dict(tag='burn', r=r, seed=seed) for r in range(n)] +
            [dict(tag='lone', r=r, seed=seed) for r in range(n // 8)] +
            [dict(tag='long', r=r, seed=seed) for r in range(n // 12)])


def lone(job, ev):
    """one of several dispersions of a layer changes, the others cannot"""
    rng = rng_for('C10lone', job['r'], job['seed'])
    np.random.seed(int(rng.integers(0, 2**31)))
    n, k, D = int(rng.integers(3, 8)), int(rng.integers(1, 4)), 2 * int(rng.integers(1, 3))
    top = job['r'] % 2                      # else the baseline changes
    x = np.ones((n + k, D), dtype=np.int8)
    x[:n, ::2] = -1                         # as many ones as minus ones
    x[n:] = 1 if top else -1
    mc = lom.Machine()
    d = mc.add_matrix(val=x, fixed=True)
    ly = mc.add_layer(latent_size=1, child=d, model='MAX-AND')
    z = np.ones((n + k, 1), dtype=np.int8)
    z[:n, 0] = pm(rng, n)
    z[n:] = 1 if top else -1
    ly.z.val, ly.u.val, ly.u.fixed = z, np.ones((D, 1), dtype=np.int8), True
    m = np.zeros(z.shape, dtype=np.int8)
    m[n:] = 1
    ly.z.fixed_entries = m
    ly.lbda.val = np.array([.8, .5] if top else [.5, .2])
    lc.record(mc, ev, tag='lone', n=1, W=int(rng.choice([2, 3, 4, 5, 7])), eps=float(rng.choice([1.3e-4, 2.3e-3, 7.1e-3])),
              bmin=int(rng.choice([0, 1, 4])), bmax=int(rng.choice([8, 15, 24, 40])), fix=int(rng.choice([0, 0, 2])))


def observe(job, ev):
    if job['tag'] == 'lone':
        return lone(job, ev)
    long = job['tag'] == 'long'
    rng = rng_for(*['C10', job['r'], job['seed']] + ['long'] * long)
    np.random.seed(int(rng.integers(0, 2**31)))
    kind = lc.KINDS[job['r'] % len(lc.KINDS)]
    mc = lc.machine_of(kind, rng)
    lc.perturb(mc, rng, pfix=.15 if job['r'] % 5 else .5)
    for run in range(1 + (job['r'] % 4 == 0)):
        W = int(rng.choice([1, 2, 3, 4, 5, 6, 8, 11]))
        bmin = int(rng.choice([0, 0, 1, 2, 5]))
        bmax = int(rng.choice([0, 1, 3, 8, 15, 24, 40]))
        fix = int(rng.choice([0, 0, 1, 3, 7]))
        if long:
            W, bmin, bmax = int(rng.choice([16, 25, 32, 50, 64, 120])), int(rng.choice([0, 1, 17, 70])), int(rng.choice([60, 130, 260]))
        eps = float(rng.choice([1.3e-4, .0123, .0317, .0771, .2003, 1.5]))
        lc.record(mc, ev, tag='%s' % kind, n=int(rng.integers(0, 3)), W=W, eps=eps, bmin=bmin, bmax=bmax, fix=fix)
