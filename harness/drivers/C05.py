"""Stationarity: the transition kernel of one whole iteration, all random outcomes enumerated."""
from common import *
from sites import prior_of, site

LN2, LN3 = math.log(2), math.log(3)
ODDS = [(1, 1), (2, 1), (1, 2), (1, 3)]


def jobs(tier, seed):
    out = []
    reps = 3 if tier == 'quick' else 24
    for model in CLANS:
        for K in (2, 3):
            for r in range(reps):
                out.append(dict(tag='single/%dD' % K, kind='single', model=model, K=K, r=r, seed=seed))
    for i in range(36 if tier == 'quick' else 400):
        out.append(dict(tag='hierarchy', kind='hier', r=i, seed=seed))
    for i in range(8 if tier == 'quick' else 80):
        out.append(dict(tag='twoparents', kind='two', r=i, seed=seed))
    for i in range(90 if tier == 'quick' else 1200):
        out.append(dict(tag='steep', kind='steep', r=i, seed=seed))
    return out


def pick(rng, xs):
    return xs[int(rng.integers(0, len(xs)))]


def steep(job, ev):
    """a single free entry whose posterior odds are extreme: the chain must still leave
    unlikely states, with the right probability"""
    rng = rng_for('C05', 'steep', job['r'], job['seed'])
    K = 2 if job['r'] % 3 else 3
    m = lom.Machine()
    shape = tuple(int(n) for n in rng.integers(2, 9 if K == 2 else 5, size=K))
    d = m.add_matrix(val=data(rng, shape, .1), fixed=True)
    own = m.add_layer(latent_size=int(rng.integers(1, 3)), child=d, model=pick(rng, CLANS))
    mat = pick(rng, own.factors)
    pars = [m.add_layer(latent_size=int(rng.integers(1, 3)), child=mat, model=pick(rng, CLANS))
            for _ in range(int(rng.integers(0, 2 if K == 3 else 3)))]
    lam = [int(rng.integers(100, 500)) * 10000 for _ in range(1 + len(pars))]
    for ly, v in zip([own] + pars, lam):
        ly.lbda.val = v / 1000000
    prior = pick(rng, [0, -4000000, 5000000])
    mat.bernoulli_prior = prior_of(prior)
    p = pick(rng, [.3, .6, .9])
    for s in range(3):
        for q in m.members:
            if q is not d:
                q.val = (2 * (rng.random(q.val.shape) < p) - 1).astype(np.int8)
        if s:                               # all data agree: the steepest case
            d.val = np.where(d.val == 0, 0, [-1, 1][s % 2]).astype(np.int8)
        idx = tuple(int(rng.integers(0, n)) for n in mat.val.shape)
        ev.append(site(m, mat, idx, lam[0], prior, list(zip(pars, lam[1:])), tag='steep/%dD/%d' % (K, len(pars))))


def observe(job, ev):
    if job['kind'] == 'steep':
        return steep(job, ev)
    rng = rng_for('C05', job['kind'], job.get('model'), job.get('K'), job['r'], job['seed'])
    m = lom.Machine()
    mats, layers = [], []          # [matrix, odds], [layer, base]
    if job['kind'] == 'single':
        shape = tuple(int(n) for n in rng.integers(1, 3, size=job['K']))
        if np.prod(shape) > 4:
            shape = shape[:-1] + (1,)
        d = m.add_matrix(val=data(rng, shape, .15), fixed=True)
        L = int(rng.integers(1, 3))
        layers.append((m.add_layer(latent_size=L, child=d, model=job['model']), 2))
    elif job['kind'] == 'hier':
        if job['r'] % 4 == 3:           # the lower layer has three factors
            d = m.add_matrix(val=data(rng, (2, 1, int(rng.integers(1, 3))), .1), fixed=True)
        else:
            d = m.add_matrix(val=data(rng, (2, int(rng.integers(1, 3))), .1), fixed=bool(job['r'] % 3))
        a = m.add_layer(latent_size=2, child=d, model=pick(rng, CLANS))
        layers.append((a, 2))
        layers.append((m.add_layer(latent_size=1 + job['r'] % 2, child=a.factors[job['r'] // 2 % 2],
                                   model=pick(rng, CLANS)), 3))
        if not d.fixed and (d.val == 0).any():
            d.val = pm(rng, *d.val.shape)
    else:
        d = m.add_matrix(val=data(rng, (2, 1), 0), fixed=True)
        a = m.add_layer(latent_size=2, child=d, model=pick(rng, CLANS))
        layers.append((a, 2))
        for b in (3, 2):
            layers.append((m.add_layer(latent_size=1, child=a.factors[0], model=pick(rng, CLANS)), b))
    every = m.members
    for lay, base in layers:
        lay.lbda.val = math.log(base)
        lay.lbda.fixed = True
    odds = []
    for q in every:
        o = pick(rng, ODDS)
        if q is d and not q.fixed:
            o = (1, 1)
        q.bernoulli_prior = o[0] / (o[0] + o[1])
        odds.append(list(o))
    # choose free entries
    cand = [(i, ix) for i, q in enumerate(every) if not (q is d and q.fixed) for ix in np.ndindex(*q.val.shape)]
    nf = 3 if job['kind'] == 'two' else 4
    sel = [cand[i] for i in rng.permutation(len(cand))[:nf]]
    for q in every:
        q.fixed_entries = np.ones(q.val.shape, dtype=np.int8)
    for i, ix in sel:
        every[i].fixed_entries[ix] = 0
    touched = {i for i, _ in sel}
    for i, q in enumerate(every):
        q.fixed = i not in touched
    base_vals = [q.val.copy() for q in every]
    n = len(sel)
    S = 1 << n
    Kern = np.zeros((S, S))
    lost = 0.0
    for s in range(S):
        start = [v.copy() for v in base_vals]
        for b, (i, ix) in enumerate(sel):
            start[i][ix] = 1 if s >> b & 1 else -1

        def run():
            for q, v in zip(every, start):
                q.val = v.copy()
            one_iteration(m)
            t = 0
            for b, (i, ix) in enumerate(sel):
                z = every[i].val[ix]
                if z == 1:
                    t |= 1 << b
                elif z != -1:
                    return None
            for j, (q, v) in enumerate(zip(every, start)):
                w = np.array(q.val)
                for i, ix in sel:
                    if i == j:
                        w[ix] = v[ix]
                if not np.array_equal(w, v):
                    return None
            return t
        for p, t in forkrng.paths(run, stop=lambda r: r is None):
            if t is None:
                lost += p
            else:
                Kern[s, t] += p
    ev.append(dict(op='stat', tag='%s/%s' % (job['tag'], '+'.join(l.model for l, _ in layers)),
                   mats=[ints(v) for v in base_vals],
                   layers=[dict(**op(l.model), base=b, child=1 + every.index(l.child),
                                fac=[1 + every.index(f) for f in l.factors]) for l, b in layers],
                   free=[[i + 1] + [int(v) + 1 for v in ix] + ([1] if len(ix) == 1 else []) for i, ix in sel],
                   odds=odds, K=np.round(Kern * 100000).astype(int).tolist()))
