"""MAX-AND factor updates: exact acceptance probabilities through infer()."""
from common import *
from sites import freeze


def jobs(tier, seed):
    n = 420 if tier == 'quick' else 5000
    return ([dict(tag='max', r=r, seed=seed) for r in range(n)] +
            [dict(tag='wide', r=r, seed=seed) for r in range(n // 4)])


def dispersion(rng, L):
    """unsorted, with ties, sometimes with a baseline that is not the smallest"""
    kind = int(rng.integers(0, 5))
    if kind == 0:
        v = rng.integers(1, 20, size=L + 1) / 20.0
    elif kind == 1:
        v = rng.choice([.25, .5, .75], size=L + 1)
    elif kind == 4:
        v = rng.choice([.0005, .002, .004, .02, .6, .985, .993, .9992], size=L + 1)
    else:
        v = rng.uniform(.03, .98, size=L + 1)
    if kind != 2:
        v[-1] = min(v) * (.5 if rng.random() < .7 else 1)
    return np.array([float('%.6f' % a) for a in v])


def micro(v):
    return [int(round(a * 1e6)) for a in v]


def observe(job, ev):
    rng = rng_for('C14', job['r'], job['seed'])
    np.random.seed(int(rng.integers(0, 2**31)))
    L = int(rng.integers(1, 6))
    shape = tuple(int(v) for v in rng.integers(1, 6, size=2))
    wide = job.get('tag') == 'wide'
    if wide:                    # many dimensions, long rows, or both
        if job['r'] % 3 != 2:
            L = WIDTHS[job['r'] % 5] if job['r'] % 11 else 260
        if job['r'] % 3:
            shape = tuple(WIDTHS[int(rng.integers(0, 4))] if k == job['r'] // 2 % 2 else s for k, s in enumerate(shape))
    x = data(rng, shape, float(rng.choice([0, .2, .5])))
    if wide and max(shape) > 6:
        x[rng.random(shape) < .8] = 0
    m, d, lay = build(x, 'MAX-AND', L)
    own = job['r'] % 2
    mat = lay.factors[own]
    ran = job['r'] % 5 == 4 and L < 40
    if ran:                     # dispersion as left behind by inference
        m.infer(no_samples=2, burn_in_min=1, burn_in_max=3, convergence_window=2)
    p = float(rng.choice([.3, .5, .8]))
    for s in range(5):
        if not (ran and s == 0):
            if s != 3:          # once: state changes but dispersion stays
                lay.lbda.val = dispersion(rng, L)
            for f in lay.factors:
                f.val = (2 * (rng.random(f.val.shape) < p) - 1).astype(np.int8)
            if wide and L > 6:
                for f, v in zip(lay.factors, hot(rng, 'OR-AND', shape, L, int(rng.integers(2, 7)), False)[0]):
                    f.val = v
        v = np.array(lay.lbda.val, dtype=float)
        if not ((v > 0) & (v < 1)).all():
            continue
        idx = (int(rng.integers(0, shape[own])), int(rng.integers(0, L)))
        if wide and rng.random() < .7:      # an entry that can matter
            on = np.flatnonzero((lay.factors[1 - own].val == 1).any(0))
            idx = (idx[0], int(rng.choice(on)) if len(on) else idx[1])
        e = dict(op='site', tag='f%d/%s' % (own, 'wide' if wide else 'after' if ran and s == 0 else 'set'), lam=micro(v),
                 lp=[int(round(math.log(a) * 1e6)) for a in v], lm=[int(round(math.log(1 - a) * 1e6)) for a in v],
                 f=[ints(f.val) for f in lay.factors], x=ints(d.val), m=own + 1, n=idx[0] + 1, l=idx[1] + 1)
        reset = freeze(m, mat, idx, s % 2 == 0, [lay.factors[1 - own]] if s in (1, 2) else ())
        before = [q.val.copy() for q in m.members if q is not mat] + [v]
        up, dn, same = site_logodds(m, mat, idx, reset=reset)
        after = [q.val for q in m.members if q is not mat] + [np.array(lay.lbda.val)]
        e.update(lo=logodds_micro(up, dn), same=bool(same and all(np.array_equal(a, b) for a, b in zip(before, after))))
        ev.append(e)
