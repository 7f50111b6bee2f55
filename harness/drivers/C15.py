"""MAX-AND dispersion updates and outputs."""
from common import *
from drivers.C14 import dispersion


def jobs(tier, seed):
    k = 1 if tier == 'quick' else 15
    return [dict(tag='lam', r=r, seed=seed) for r in range(420 * k)] + [dict(tag='out', r=r, seed=seed) for r in range(220 * k)] + \
        [dict(tag=t, wide=1, r=r, seed=seed) for t in ('lam', 'out') for r in range(20 * k)]


def wider(job, rng, L, shape):
    if 'wide' not in job:
        return L, shape
    if job['r'] % 4 < 2:
        L = WIDTHS[int(rng.integers(0, 3 if job['tag'] == 'lam' else 6))]
    if job['r'] % 4:
        big = WIDTHS[int(rng.integers(0, 4))]
        shape = tuple(big if k == job['r'] % 2 else s for k, s in enumerate(shape))
    return L, shape


def lam(job, ev, rng):
    L = int(rng.integers(1, 6))
    shape = tuple(int(v) for v in rng.integers(1, 7, size=2))
    L, shape = wider(job, rng, L, shape)
    fs = hot(rng, 'OR-AND', shape, L, int(rng.integers(2, 7)), False)[0] if L > 8 else [(2 * (rng.random((n, L)) < rng.choice([.2, .4, .6, .9])) - 1).astype(np.int8) for n in shape]
    x = np.asarray(aux.lom_generate_data(fs, 'OR-AND')).astype(np.int8)
    x = np.where(rng.random(shape) < rng.choice([0, .1, .3, .6, 1]), -x, x).astype(np.int8)
    x[rng.random(shape) < rng.choice([0, 0, .2, .6, 1])] = 0
    m, d, lay = build(x, 'MAX-AND', L)
    for f, v in zip(lay.factors, fs):
        f.val = v.copy()
        f.fixed = True
    lay.lbda.val = dispersion(rng, L)
    one_iteration(m)
    same = np.array_equal(d.val, x) and all(np.array_equal(f.val, v) for f, v in zip(lay.factors, fs))
    ev.append(dict(op='lam', tag='lam', f=[ints(v) for v in fs], x=ints(x),
                   lam=scaled(np.atleast_1d(lay.lbda.val)), same=bool(same)))


def out(job, ev, rng):
    L = int(rng.integers(1, 5))
    shape = tuple(int(v) for v in rng.integers(1, 5, size=2))
    L, shape = wider(job, rng, L, shape)
    x = data(rng, shape, .1)
    m, d, lay = build(x, 'MAX-AND', L)
    for run in range(1 + job['r'] % 2):
        lay.lbda.val = dispersion(rng, L)
        for f in lay.factors:
            f.fixed = bool(rng.random() < .2)
        lay.lbda.fixed = bool(rng.random() < .5)
        n = int(rng.choice([1, 2, 2, 3, 4] if L <= 2 or L > 8 else [1, 2]))
        m.infer(no_samples=n, burn_in_min=int(rng.integers(0, 3)), burn_in_max=int(rng.integers(0, 3)),
                convergence_window=2)
        if L > 8:               # a few dimensions that matter, as samples of inference
            for f in lay.factors:
                f.val = hot(rng, 'OR-AND', [len(f.val)], L, 4, False)[0][0]
        T = n if not (lay.lbda.fixed and all(f.fixed for f in lay.factors)) else 1
        if rng.random() < .3:
            for f in lay.factors:
                if not f.fixed:
                    f.val = pm(rng, *f.val.shape)
        cur = np.array(lay.lbda.val, dtype=float)
        ltr = [cur] * T if lay.lbda.fixed else [np.array(v, dtype=float) for v in lay.lbda.trace]
        mean = sum(ltr) / len(ltr)
        c5 = lambda v: [int(round(a * 1e5)) for a in v]
        tr = [[ints(f.val)] * T if f.fixed else ints(f.trace) for f in lay.factors]
        # equal probabilities must stay equal, different ones different, in whole units
        def faithful(v):
            w = c5(v)
            return all((v[i] < v[j]) == (w[i] < w[j]) for i in range(len(w)) for j in range(len(w)))
        for tech in ('point_estimate', 'factor_map', 'mc', 'factor_mean'):
            if tech == 'factor_mean' and L > 8 and T > 1:
                continue
            use = dict(point_estimate=[cur], factor_map=[cur, mean], mc=[cur], factor_mean=[mean])[tech]
            if not all(faithful(v) for v in (ltr if tech == 'mc' else use)):
                ev.append(dict(op='skip', what='dispersions too close'))
                continue
            mapped = bool(rng.random() < .7)
            o = np.asarray(lay.output(technique=tech, map_to_probabilities=mapped), dtype=float)
            ev.append(dict(op='out', tag='out/' + tech, tech=tech, mapped=mapped, cur=[ints(f.val) for f in lay.factors],
                           tr=tr, ltr=[c5(v) for v in ltr], lams=[c5(v) for v in use], v=scaled(o, 1e5)))


def observe(job, ev):
    rng = rng_for('C15', job['tag'], job['r'], job['seed'])
    np.random.seed(int(rng.integers(0, 2**31)))
    dict(lam=lam, out=out)[job['tag']](job, ev, rng)
