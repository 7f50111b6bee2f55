"""Conditionals of single-layer factor entries: exact acceptance probabilities via infer()."""
import itertools
from common import *
from sites import *


def jobs(tier, seed):
    out = []
    reps = 26 if tier == 'quick' else 300
    for model in CLANS:
        for K in (2, 3):
            for r in range(reps):
                out.append(dict(tag=model, model=model, K=K, r=r, seed=seed, kind='rand'))
            for r in range(2 if tier == 'quick' else 10):
                out.append(dict(tag=model, model=model, K=K, r=r, seed=seed, kind='big'))
            if model[:3] == 'XOR':
                out.append(dict(tag=model, model=model, K=K, r=0, seed=seed, kind='wrap'))
            for r in range(12 if tier == 'quick' else 60):
                out.append(dict(tag=model, model=model, K=K, r=r, seed=seed, kind='wide'))
            for r in range(4 if tier == 'quick' else 2 * K * 2):
                out.append(dict(tag=model, model=model, K=K, r=r, seed=seed, kind='huge'))
    return out


def pick(rng, options):
    return options[int(rng.integers(0, len(options)))]


def huge(job, ev):
    """tens of thousands of cells per entry, described as groups of equal rows: the
    balance of explained cells exceeds 16 bits"""
    model, K = job['model'], job['K']
    rng = rng_for('C04', model, K, job['r'], job['seed'], 'huge')
    own = (job['r'] + job['seed']) % K
    L = int(rng.integers(1, 3))
    w = [[1, 1][:int(rng.integers(1, 3))] for _ in range(K)]
    for k in range(K):
        if k != own:
            n = int(rng.integers(33500, 36000)) if K == 2 else int(rng.integers(185, 200))
            w[k] = [n, int(rng.integers(1, 9)), int(rng.integers(1, 4))]
    f = [pm(rng, len(w[k]), L) for k in range(K)]
    for k in range(K):
        # the large groups are the ones the entry matters for
        f[k][0, :] = [[-1, 1], [1, 1]][int(rng.integers(0, 2))][:L] if 'AND' in model and 'NAND' not in model else 1
        f[k][0, 0] = 1
    big = pm(rng, *[len(v) for v in w])
    big[(slice(None),) + (0,) * (K - 1) if own == 0 else tuple(slice(None) if k == own else 0 for k in range(K))] = \
        [1, -1][job['r'] % 2]
    x = big
    full = []
    for k in range(K):
        x = np.repeat(x, w[k], axis=k)
        full.append(np.repeat(f[k], w[k], axis=0))
    m, d, lay = build(x, model, L)
    for a, v in zip(lay.factors, full):
        a.val = v.astype(np.int8)
    mat = lay.factors[own]
    mat.bernoulli_prior = .5
    lam = 40
    lay.lbda.val = lam / MICRO
    idx = (int(rng.integers(0, len(w[own]))), 0)
    e = site(m, mat, idx, lam, 0, tag='%s/%dD/f%d/huge' % (model, K, own))
    e.update(f=[ints(v) for v in f], x=ints(big), w=w)
    ev.append(e)


def wide(job, ev):
    """many dimensions, or many rows, of which few matter"""
    model, K = job['model'], job['K']
    rng = rng_for('C04', model, K, job['r'], job['seed'], job['kind'])
    own = int(rng.integers(0, K))
    rows = [int(v) for v in rng.integers(1, 5 if K == 2 else 3, size=K)]
    if job['kind'] == 'wide' and (job['r'] + job['seed']) % 3 == 2:
        L = int(rng.integers(1, 4))
        rows[own] = pick(rng, WIDTHS)
    else:
        L = pick(rng, WIDTHS)
    if job['kind'] == 'wrap':       # exactly 256 more active dimensions than make a difference
        rows, L = [2] * K, 257 + int(rng.integers(0, 2))
    x = data(rng, rows, .1)
    f, at = hot(rng, model, rows, L, 2 if job['kind'] == 'wrap' else 4, True if job['kind'] == 'wrap' else None)
    m, d, lay = build(x, model, L)
    for a, v in zip(lay.factors, f):
        a.val = v
    lam, prior = 20000, pick(rng, [0, 400000])
    lay.lbda.val = lam / MICRO
    mat = lay.factors[own]
    if prior or rng.random() < .5:      # else as it came
        mat.bernoulli_prior = prior_of(prior)
    for s in range(5):
        if s:
            for a in lay.factors:
                a.val[:, at] = pm(rng, len(a.val), len(at))
        idx = (rows[own] - 1 - int(rng.integers(0, min(3, rows[own]))), pick(rng, at))
        ev.append(site(m, mat, idx, lam, prior, tag='%s/%dD/f%d/%s' % (model, K, own, job['kind'])))


def observe(job, ev):
    model, K = job['model'], job['K']
    if job['kind'] in ('wide', 'wrap'):
        return wide(job, ev)
    if job['kind'] == 'huge':
        return huge(job, ev)
    rng = rng_for('C04', model, K, job['r'], job['seed'], job['kind'])
    if job['kind'] == 'big':
        # one axis long enough to push a score beyond 8 bits
        L = 2
        shape = [3, 1, 1][:K]
        long = int(rng.integers(1, K))
        shape[long] = 180 if job['r'] % 2 == 0 else 300
        own = 0
        x = np.ones(shape, dtype=np.int8)
        if job['r'] % 4 > 1:
            x = -x
        nsites = 2
    else:
        L = int(rng.integers(1, 5))
        shape = [int(v) for v in rng.integers(1, 5 if K == 2 else 4, size=K)]
        own = job['r'] % K
        x = data(rng, shape, pick(rng, [0, .2, .5]))
        nsites = 5
    lam = int(rng.integers(1, 300)) * 10000 if job['kind'] == 'rand' else 20000
    prior = pick(rng, [0, -700000, 400000, -2500000]) if job['kind'] == 'rand' else 0
    m, d, lay = build(x, model, L)
    p = pick(rng, [.2, .5, .8])
    for i, f in enumerate(lay.factors):
        f.val = (2 * (rng.random(f.val.shape) < p) - 1).astype(np.int8)
        if job['kind'] == 'big':
            f.val = np.full(f.val.shape, [1, -1][int(rng.integers(0, 2))] if i else -1, dtype=np.int8)
            f.val[:, 1] = -1
    mat = lay.factors[own]
    if prior or rng.random() < .5:
        mat.bernoulli_prior = prior_of(prior)
    for f in lay.factors:
        if f is not mat:
            f.bernoulli_prior = .9
    lay.lbda.val = lam / MICRO
    for s in range(nsites):
        idx = (int(rng.integers(0, shape[own])), int(rng.integers(0, L)))
        if job['kind'] == 'big':
            idx = (idx[0], 0)
        ev.append(site(m, mat, idx, lam, prior, tag='%s/%dD/f%d' % (model, K, own)))
        if job['kind'] == 'rand':
            # next state: everything redrawn in the same machine
            for f in lay.factors:
                flip = rng.random(f.val.shape) < .3
                f.val = np.where(flip, -f.val, f.val).astype(np.int8)
            # ... and in the later states the settings, too
            if s >= 1 and rng.random() < .6:
                lam = int(rng.integers(1, 300)) * 10000 * pick(rng, [1] * 6 + [0, -1])
                lay.lbda.val = lam / MICRO
                prior = pick(rng, [0, -700000, 400000, -2500000])
                mat.bernoulli_prior = prior_of(prior)
            if s >= 2 and rng.random() < .5:
                y = data(rng, shape, pick(rng, [0, .2, .5]))
                if rng.random() < .5:
                    d.val[...] = y
                else:
                    d.val = y
            if s == 3:
                own = int(rng.integers(0, K))
                mat = lay.factors[own]
                mat.bernoulli_prior = prior_of(prior)
