"""qL-AND: entries, thresholds, dispersion, whole iterations, outputs."""
from common import *
from sites import prior_of, freeze

GAMMA = [(1, 1), (1, 2), (2, 1), (3, 1)]


def jobs(tier, seed):
    k = 1 if tier == 'quick' else 10
    return ([dict(tag='site', r=r, seed=seed) for r in range(150 * k)] +
            [dict(tag='draw', r=r, seed=seed) for r in range(120 * k)] +
            [dict(tag='lbda', r=r, seed=seed) for r in range(80 * k)] +
            [dict(tag='out', r=r, seed=seed) for r in range(60 * k)] +
            [dict(tag='stat', r=r, seed=seed) for r in range(12 * k)] +
            [dict(tag=t, wide=w, r=r, seed=seed) for t in ('site', 'draw', 'lbda', 'out') for w in (0, 1, 2)
             for r in range((8 if t == 'site' else 4) * k)] +
            [dict(tag='draw', wide=3, r=r, seed=seed) for r in range(4 * k)])


def pick(rng, xs):
    return xs[int(rng.integers(0, len(xs)))]


def biased(rng, shape, p):
    return (2 * (rng.random(shape) < p) - 1).astype(np.int8)


def size(job, rng, N, D, L):
    """rows, columns, dimensions, one of them large if the job says so"""
    big = WIDTHS[int(rng.integers(0, 8 if job.get('wide') == 2 else 5))]
    w = job.get('wide')
    return (big if w == 0 else N, big if w == 1 else D, big if w == 2 else L)


def machine(rng, N, D, L, p=None, miss=None):
    x = data(rng, (N, D), float(rng.choice([0, .2, .5])) if miss is None else miss)
    m, d, lay = build(x, 'qL-AND', L)
    p = float(rng.choice([.4, .6, .85])) if p is None else p
    if L > 8:                   # around as many active as a threshold asks for
        p = math.sqrt(float(rng.choice([2, 3, 4])) / L)
    for f in lay.factors:
        f.val = biased(rng, f.val.shape, p)
    lay.q.val = rng.integers(1, 6 if rng.random() < .3 else 4, size=(1, D)).astype(np.int8)
    return m, d, lay


def state(lay):
    return dict(f=[ints(f.val) for f in lay.factors], q=ints(lay.q.val)[0], x=ints(lay.child()))


def site(job, ev, rng):
    N, D, L = size(job, rng, *(int(v) for v in rng.integers(1, 6, size=3)))
    m, d, lay = machine(rng, N, D, L)
    own = job['r'] % 2
    mat = lay.factors[own]
    for s in range(4):
        lam = int(rng.integers(1, 300)) * 10000
        prior = pick(rng, [0, -700000, 400000, 2500000])
        lay.lbda.val = lam / MICRO
        for f in lay.factors:
            f.bernoulli_prior = .9
        mat.bernoulli_prior = prior_of(prior)
        idx = (int(rng.integers(0, (N, D)[own])), int(rng.integers(0, L)))
        e = dict(op='qsite', tag='site/%d' % own, lam=lam, prior=prior, m=own + 1, n=idx[0] + 1, l=idx[1] + 1, **state(lay))
        reset = freeze(m, mat, idx, s % 2 == 0 and d.val.size < 400)
        before = [q.val.copy() for q in m.members if q is not mat] + [lay.lbda.val]
        up, dn, same = site_logodds(m, mat, idx, reset=reset)
        after = [q.val for q in m.members if q is not mat] + [lay.lbda.val]
        e.update(lo=logodds_micro(up, dn), same=bool(same and all(np.array_equal(a, b) for a, b in zip(before, after))))
        ev.append(e)
        for f in lay.factors:
            f.val = (biased(rng, f.val.shape, .5) if L <= 8 else f.val[:, rng.permutation(L)]) if 'wide' in job else \
                np.where(rng.random(f.val.shape) < .3, -f.val, f.val).astype(np.int8)
        if rng.random() < .5:
            lay.q.val = rng.integers(1, 5, size=(1, D)).astype(np.int8)
        if rng.random() < .3:
            d.val = data(rng, (N, D), .2)


def draw(job, ev, rng):
    N, D, L = size(job, rng, int(rng.integers(1, 7)), int(rng.integers(1, 4)), int(rng.integers(1, 7)))
    m, d, lay = machine(rng, N, D, L)
    b, g = pick(rng, [2, 3]), pick(rng, GAMMA)
    if N > 5:
        b = 2
    heavy = job.get('wide') == 3        # much data, of which few rows tell thresholds apart
    if heavy:
        N, L, b = 600, 6, 3
        m, d, lay = build(pm(rng, N, D), 'qL-AND', L)
        d.fixed = True
    few = lambda x: np.where(rng.permutation(N)[:, None] < 6, x, 0).astype(np.int8) if N > 6 and not heavy else x
    d.val = few(d.val)
    if heavy:
        lay.q.val = rng.integers(1, 4, size=(1, D)).astype(np.int8)
        act = np.where(rng.permutation(N) < 5, rng.integers(0, 7, size=N), rng.choice([0, 6], size=N))
        lay.factors[0].val = np.where(np.arange(L)[None, :] < act[:, None], 1, -1).astype(np.int8)
        lay.factors[1].val = np.ones((D, L), dtype=np.int8)
        d.val = np.where((act > 3)[:, None] == (rng.random((N, D)) < .1), 1, -1).astype(np.int8)
    lay.lbda.val = math.log(b)
    lay.gamma = g[0] / g[1]
    for s in range(2):
        c = int(rng.integers(0, D))
        for p in m.members:
            p.fixed = p is not lay.q
        lay.lbda.fixed = True
        lay.q.fixed_entries = np.ones((1, D), dtype=np.int8)
        lay.q.fixed_entries[0, c] = 0
        q0 = lay.q.val.copy()
        rest = [p.val.copy() for p in m.members if p is not lay.q]

        def run():
            lay.q.val = q0.copy()
            one_iteration(m)
            o = np.array(lay.q.val)
            v = int(o[0, c])
            o[0, c] = q0[0, c]
            return v, bool(np.array_equal(o, q0))
        pr, same, lost = [0.0] * 5, True, 0.0
        for p, (v, ok) in forkrng.paths(run, stop=lambda r: not r[1]):
            same = same and ok
            if 1 <= v <= 5:
                pr[v - 1] += p
        lay.q.val = q0
        same = same and all(np.array_equal(a, p.val) for a, p in zip(rest, [p for p in m.members if p is not lay.q]))
        ev.append(dict(op='qdraw', tag='draw', b=b, g=list(g), d=c + 1, p=scaled(pr), same=bool(same), **state(lay)))
        if heavy:
            break
        for f in lay.factors:
            f.val = biased(rng, f.val.shape, .7)
        # the same machine goes on with other settings
        if N <= 5:
            b = pick(rng, [2, 3])
        g = pick(rng, GAMMA)
        lay.lbda.val, lay.gamma = math.log(b), g[0] / g[1]
        if rng.random() < .4:
            d.val = few(data(rng, (N, D), .2))


def lbda(job, ev, rng):
    N, D, L = size(job, rng, *(int(v) for v in rng.integers(1, 6, size=3)))
    m, d, lay = machine(rng, N, D, L)
    a, b, q = pick(rng, [(1, 1, 1), (2, 1, 1), (1, 3, 1), (7, 5, 4), (10, 1, 1)])
    if 'wide' in job:
        a, b, q = pick(rng, [(1, 1, 1), (2, 1, 1), (10, 1, 1)])
    if rng.random() < .8:        # mostly predictable data
        x = np.array([[1 if sum((lay.factors[0].val[n] == 1) & (lay.factors[1].val[c] == 1)) >= lay.q.val[0, c] else -1
                       for c in range(D)] for n in range(N)], dtype=np.int8)
        x = np.where(rng.random(x.shape) < rng.choice([0, .1, .3]), -x, x).astype(np.int8)
        x[rng.random(x.shape) < rng.choice([0, .2, .6, 1])] = 0
        d.val = x
    for p in m.members:
        p.fixed = True
    lay.lbda.beta_prior = (a / q, b / q)
    lay.lbda.val = float(rng.random() * 3)
    e = dict(op='qlbda', tag='lbda', a=a, b=b, den=q, **state(lay))
    before = [p.val.copy() for p in m.members]
    one_iteration(m)
    same = all(np.array_equal(u, p.val) for u, p in zip(before, m.members)) and lay.lbda.beta_prior == (a / q, b / q)
    lam = lay.lbda()
    ok = np.ndim(lam) == 0 and np.isfinite(lam)
    e.update(s=scaled(1 / (1 + math.exp(-float(lam)))) if ok else -1, same=bool(same))
    ev.append(e)


def out(job, ev, rng):
    N, D, L = size(job, rng, *(int(v) for v in rng.integers(1, 6, size=3)))
    m, d, lay = machine(rng, N, D, L)
    if job['r'] % 2:
        m.infer(no_samples=int(rng.integers(1, 4)), burn_in_min=int(rng.integers(0, 3)), burn_in_max=3, convergence_window=2)
    for s in range(2):
        for tech in ('point_estimate', 'factor_map', 'factor_mean', 'mc'):
            mapped = bool(rng.random() < .7)
            o = np.asarray(lay.output(technique=tech, map_to_probabilities=mapped), dtype=float)
            ev.append(dict(op='qout', tag='out/' + tech, mapped=mapped, w=ints(o), **state(lay)))
        for f in lay.factors:
            f.val = biased(rng, f.val.shape, .7)


def stat(job, ev, rng):
    N, D = pick(rng, [(1, 1), (2, 1), (1, 2)])
    L = int(rng.integers(1, 3))
    m, d, lay = machine(rng, N, D, L, p=.7, miss=.1)
    b, g = 2, pick(rng, [(1, 1), (1, 2), (2, 1)])
    lay.lbda.val, lay.gamma, lay.lbda.fixed = math.log(b), g[0] / g[1], True
    odds = []
    for f in lay.factors:
        o = pick(rng, [(1, 1), (2, 1), (1, 2)])
        f.bernoulli_prior = o[0] / (o[0] + o[1])
        odds.append(list(o))
    cand = [(i, ix) for i, f in enumerate(lay.factors) for ix in np.ndindex(*f.val.shape)]
    free = [cand[i] for i in rng.permutation(len(cand))[:3]]
    fq = [int(rng.integers(0, D))]
    mats = lay.factors + [lay.q]
    for f in mats:
        f.fixed_entries = np.ones(f.val.shape, dtype=np.int8)
    for i, ix in free:
        mats[i].fixed_entries[ix] = 0
    for c in fq:
        lay.q.fixed_entries[0, c] = 0
    for i, f in enumerate(mats):
        f.fixed = bool(f.fixed_entries.all())
    d.fixed = True
    base = [f.val.copy() for f in mats]
    states = []
    for s in range(2 ** len(free)):
        for v in range(1, 6):
            w = [a.copy() for a in base]
            for k, (i, ix) in enumerate(free):
                w[i][ix] = 1 if s >> k & 1 else -1
            w[2][0, fq[0]] = v
            states.append(w)
    key = lambda w: b''.join(np.asarray(a, dtype=np.int8).tobytes() for a in w)
    index = {key(w): k for k, w in enumerate(states)}
    K = np.zeros((len(states), len(states)))
    for s, w in enumerate(states):
        def run():
            for f, a in zip(mats, w):
                f.val = a.copy()
            one_iteration(m)
            return index.get(key([f.val for f in mats]))
        for p, t in forkrng.paths(run, stop=lambda r: r is None):
            if t is not None:
                K[s, t] += p
    ev.append(dict(op='qstat', tag='stat', x=ints(d.val), b=b, g=list(g), odds=odds, fq=[c + 1 for c in fq],
                   free=[[i + 1, ix[0] + 1, ix[1] + 1] for i, ix in free],
                   S=[dict(f=[ints(w[0]), ints(w[1])], q=ints(w[2])[0]) for w in states],
                   K=np.round(K * 10000).astype(int).tolist()))


def observe(job, ev):
    rng = rng_for('C17', job['tag'], job['r'], job['seed'])
    np.random.seed(int(rng.integers(0, 2**31)))
    dict(site=site, draw=draw, lbda=lbda, out=out, stat=stat)[job['tag']](job, ev, rng)
