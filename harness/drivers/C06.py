"""Dispersion updates through infer(): all members fixed except the layer's lambda."""
from common import *
import lifecycle as lc

PRIORS = [(1, 1, 1), (2, 1, 1), (1, 3, 1), (1, 1, 2), (7, 5, 4), (10, 1, 1), (1, 40, 2)]   # a/q, b/q


def jobs(tier, seed):
    reps = 40 if tier == 'quick' else 500
    return [dict(tag='%s/%dD' % (m, K), model=m, K=K, r=r, seed=seed)
            for m in CLANS + ['OR-AND-IBP'] for K in ((2, 3) if m != 'OR-AND-IBP' else (2,)) for r in range(reps)] + \
        [dict(tag='several', r=r, seed=seed) for r in range(2 * reps)] + \
        [dict(tag='huge', model=m, K=K, r=r, seed=seed) for m in CLANS + ['OR-AND-IBP'] for K in ((2, 3) if m != 'OR-AND-IBP' else (2,))
         for r in range(1 if tier == 'quick' else 6)] + \
        [dict(tag='wide', model=m, K=K, r=r, seed=seed) for m in CLANS for K in (2, 3) for r in range(3 if tier == 'quick' else 30)]


def huge(job, ev):
    """more cells than 15 (or 16) bits count, described as groups of equal rows; or many dimensions"""
    model, K = job['model'], job['K']
    rng = rng_for('C06', job['tag'], model, K, job['r'], job['seed'])
    o = 'OR-AND' if 'IBP' in model else model
    rows = [int(v) for v in rng.integers(1, 5 if K == 2 else 4, size=K)]
    w = [[1] * n for n in rows]
    if job['tag'] == 'huge':
        big = 300 if rng.random() < .3 else 190
        for k in range(2):
            w[k] = [int(v) for v in rng.integers(1, 6, size=rows[k])]
            w[k][0] += big
        if rng.random() < .5:                      # one long axis instead of two
            k = int(rng.integers(0, K))
            for j in range(K):
                w[j] = [1] * rows[j] if j != k else [int(v) for v in rng.integers(1, 6, size=rows[j])]
            w[k][0] += -(-40000 // int(np.prod([rows[j] for j in range(K) if j != k])))
        fs = [pm(rng, n, 2) for n in rows]
    else:
        fs, _ = hot(rng, o, rows, pick(rng, WIDTHS), 4)
    x = np.asarray(aux.lom_generate_data(fs, o)).astype(np.int8)
    flip = rng.random(x.shape) < rng.choice([.05, .2])
    flip.flat[0] = flip.flat[0] and job['tag'] != 'huge'      # the largest group is explained
    x = np.where(flip, -x, x).astype(np.int8)
    x[rng.random(x.shape) < rng.choice([0, .1])] = 0
    xx, full = x, []
    for k in range(K):
        xx = np.repeat(xx, w[k], axis=k)
        full.append(np.repeat(fs[k], w[k], axis=0))
    m, d, lay = build(xx, model, fs[0].shape[1])
    for f, v in zip(lay.factors, full):
        f.val = v.astype(np.int8)
        f.fixed = True
    a, b, q = pick(rng, PRIORS)
    lay.lbda.beta_prior = (a / q, b / q)
    one_iteration(m)
    same = np.array_equal(d.val, xx) and all(np.array_equal(f.val, v) for f, v in zip(lay.factors, full))
    ev.append(dict(op='lbda', tag='%s/%s/%dD' % (job['tag'], model, K), **op(o), f=[ints(v) for v in fs], x=ints(x), w=w,
                   a=a, b=b, q=q, s=logistic(lay.lbda()), same=bool(same)))


def pick(rng, xs):
    return xs[int(rng.integers(0, len(xs)))]


def observe(job, ev):
    if job['tag'] == 'several':
        return several(job, ev)
    if job['tag'] in ('huge', 'wide'):
        return huge(job, ev)
    model, K = job['model'], job['K']
    rng = rng_for('C06', model, K, job['r'], job['seed'])
    L = int(rng.integers(1, 5))
    shape = tuple(int(n) for n in rng.integers(1, 7 if K == 2 else 5, size=K))
    fs = [(2 * (rng.random((n, L)) < rng.choice([.2, .5, .8])) - 1).astype(np.int8) for n in shape]
    x = np.asarray(aux.lom_generate_data(fs, 'OR-AND' if 'IBP' in model else model)).astype(np.int8)
    flip = rng.random(shape) < rng.choice([0, .1, .3, .6, 1])
    x = np.where(flip, -x, x).astype(np.int8)
    x[rng.random(shape) < rng.choice([0, .2, .6, 1])] = 0
    a, b, q = PRIORS[int(rng.integers(0, len(PRIORS)))]
    m, d, lay = build(x, model, L)
    for f, v in zip(lay.factors, fs):
        f.val = v.copy()
        f.fixed = True
    for step in range(3 if job['r'] % 4 == 0 else 1):
        if step:                # the same machine goes on: in place, replaced, other priors
            for k, f in enumerate(lay.factors):
                ix = tuple(int(rng.integers(0, n)) for n in f.val.shape)
                if rng.random() < .5:
                    f.val[ix] = -f.val[ix]
                else:
                    f.val = np.where(rng.random(f.val.shape) < .3, -f.val, f.val).astype(np.int8)
            x = np.asarray(aux.lom_generate_data([f.val for f in lay.factors],
                                                 'OR-AND' if 'IBP' in model else model)).astype(np.int8)
            x = np.where(rng.random(shape) < rng.choice([0, .2]), -x, x).astype(np.int8)
            x[rng.random(shape) < rng.choice([0, .3])] = 0
            if rng.random() < .5:
                d.val[...] = x
            else:
                d.val = x.copy()
            a, b, q = PRIORS[int(rng.integers(0, len(PRIORS)))]
        if (a, b, q) != (1, 1, 1) or step or rng.random() < .3:     # else as it came
            lay.lbda.beta_prior = (a / q, b / q)
        lay.lbda.val = float(rng.random() * 3)
        fs = [f.val.copy() for f in lay.factors]
        one_iteration(m)
        same = np.array_equal(d.val, x) and all(np.array_equal(f.val, v) for f, v in zip(lay.factors, fs)) \
            and lay.lbda.beta_prior == (a / q, b / q) and lay.model == model and lay.size == L
        o = op('OR-AND' if 'IBP' in model else model)
        ev.append(dict(op='lbda', tag=job['tag'] + '/again' * (step > 0), **o, f=[ints(v) for v in fs], x=ints(x),
                       a=a, b=b, q=q, s=logistic(lay.lbda()), same=bool(same)))


def logistic(lam):
    return scaled(1 / (1 + math.exp(-float(lam)))) if np.ndim(lam) == 0 and np.isfinite(lam) else -1


def several(job, ev):
    """machines of several layers: each dispersion from its own child and factors"""
    rng = rng_for('C06', 'several', job['r'], job['seed'])
    np.random.seed(int(rng.integers(0, 2**31)))
    kind = ['deep', 'two', 'open', 'chain', 'open2', 'deep2', 'deep3D', 'net'][job['r'] % 8]
    m = lc.machine_of(kind, rng)
    if rng.random() < .5:
        m.infer(no_samples=1, burn_in_min=1, burn_in_max=3, convergence_window=2)
    for q in m.members:
        q.fixed = True
    for step in range(2):
        pri = []
        for lay in m.layers:
            a, b, q = PRIORS[int(rng.integers(0, len(PRIORS)))]
            pri.append((a, b, q))
            lay.lbda.beta_prior = (a / q, b / q)
            lay.lbda.val = float(rng.random() * 3)
        tops = [f for lay in m.layers for f in lay.factors]
        for f in tops:
            if rng.random() < .7:
                f.val = (2 * (rng.random(f.val.shape) < rng.choice([.3, .6, .9])) - 1).astype(np.int8)
        for lay in m.layers:    # children mostly predicted by their layers, the outermost last
            if lay.child.layer is None and rng.random() < .8:
                x = np.asarray(aux.lom_generate_data([f.val for f in lay.factors], lay.model)).astype(np.int8)
                lay.child.val = np.where(rng.random(x.shape) < .15, -x, np.where(rng.random(x.shape) < .1, 0, x)).astype(np.int8)
        hold = [bool(rng.random() < .2) for _ in m.layers]
        if all(hold):
            hold[0] = False
        for lay, h in zip(m.layers, hold):
            lay.lbda.fixed = h
        before = [q.val.copy() for q in m.members]
        old = [lay.lbda.val for lay in m.layers]
        one_iteration(m)
        same = all(np.array_equal(u, q.val) for u, q in zip(before, m.members))
        for lay, (a, b, q), h, v in zip(m.layers, pri, hold, old):
            if h:
                same = same and lay.lbda.val == v
                continue
            ev.append(dict(op='lbda', tag='several/' + kind, **op(lay.model), f=[ints(f.val) for f in lay.factors],
                           x=ints(lay.child.val), a=a, b=b, q=q, s=logistic(lay.lbda()), same=bool(same)))
