"""Conditionals of matrices with parent layers (one or two) and/or an own layer."""
from common import *
from sites import *


def jobs(tier, seed):
    out = []
    reps = 1 if tier == 'quick' else 8
    for own in CLANS:
        for K in (2, 3):
            for p1 in CLANS:
                for r in range(reps):
                    out.append(dict(tag='own%dD+1' % K, own=own, K=K, par=[p1], r=r, seed=seed))
    for p1 in CLANS:
        for r in range(3 * reps):
            out.append(dict(tag='none+1', own=None, K=2, par=[p1], r=r, seed=seed))
        for p2 in CLANS:
            for r in range(reps):
                out.append(dict(tag='none+2', own=None, K=2, par=[p1, p2], r=r, seed=seed))
                for o in range(2 if tier == 'quick' else 8):
                    own = CLANS[(CLANS.index(p1) + 3 * CLANS.index(p2) + 5 * o + seed) % 8]
                    out.append(dict(tag='own2D+2', own=own, K=2, par=[p1, p2], r=r, seed=seed, o=o))
    for r in range(80 * reps):
        own = [None] + CLANS
        out.append(dict(tag='wide', own=own[r % 9], K=2 + (r // 9) % 2 if r % 9 and r % 3 else 2, par=[CLANS[(3 * r + seed) % 8]] +
                        ([CLANS[(r + seed) % 8]] if r % 3 == 0 and r % 9 else []), r=r, seed=seed, wide=r % 4))
    for own, n in ((None, 2), (None, 3), ('lom', 2), ('lom', 3), ('MAX-AND', 2), ('qL-AND', 2), ('OR-AND-IBP', 2)):
        for r in range(3 * reps):
            out.append(dict(tag='hierarchy', hier=own or 'none', n=n, par=[], K=0, own=own, r=r, seed=seed))
    return out


def kind(model):
    return 'lom' if model in CLANS else model


def hierarchies(job, ev):
    """machines with layers on top of layers, of all kinds: which of them are refused?"""
    rng = rng_for('C08h', job['hier'], job['n'], job['r'], job['seed'])
    n = job['n']
    tops = ['lom', 'MAX-AND', 'qL-AND', 'OR-AND-IBP'] if n == 2 or job['own'] else ['lom']
    names = [['lom'] * k for k in (1, 2, 3, 4)] + [[t] for t in tops[1:]] + [['lom', t] for t in tops[1:]] + \
        [[t, 'lom'] for t in tops[1:]]
    for par in names:
        for at in range(n if job['own'] else 1):
            m = lom.Machine()
            d = m.add_matrix(val=data(rng, tuple(int(v) for v in rng.integers(2, 4, size=n)), .2), fixed=job['own'] is not None)
            mat = d
            if job['own']:
                lay = m.add_layer(latent_size=2, child=d, model=job['own'] if job['own'] != 'lom' else pick(rng, CLANS))
                mat = lay.factors[at]
            pars = [m.add_layer(latent_size=2, child=mat, model=p if p != 'lom' else pick(rng, CLANS)) for p in par]
            try:
                one_iteration(m)
                refused = False
            except forkrng.Unsupported:
                raise
            except Exception:
                refused = True
            ev.append(dict(op='hierarchy', tag='hierarchy/%s%d<%s' % (job['hier'], n, '+'.join(par)), own=job['hier'], n=n,
                           par=[dict(kind=kind(p.model), n=len(p.factors)) for p in pars], refused=refused))


def pick(rng, xs):
    return xs[int(rng.integers(0, len(xs)))]


def stays(m, mat, idx, ev, tag):
    """a missing entry of data that is not fixed"""
    freeze(m, mat, idx)
    base = mat.val.copy()

    def run():
        mat.val = base.copy()
        one_iteration(m)
        out = np.asarray(mat.val)
        rest = out.shape == base.shape and np.array_equal(np.delete(out, np.ravel_multi_index(idx, base.shape)),
                                                          np.delete(base, np.ravel_multi_index(idx, base.shape)))
        return (int(out[idx]) if out.shape == base.shape else 99, bool(rest))
    try:
        res = forkrng.paths(run, stop=lambda r: not r[1])
    except forkrng.Unsupported:
        res = forkrng.threshold(run)
    mat.val = base
    res = [r for p, r in res if p > 0]
    ev.append(dict(op='stay', tag='missing/' + tag, vals=sorted({v for v, _ in res}), same=all(s for _, s in res)))


def observe(job, ev):
    if job.get('hier'):
        return hierarchies(job, ev)
    rng = rng_for('C08', job['own'], job['K'], job['par'], job['r'], job['seed'], job.get('o'))
    m = lom.Machine()
    lam = 0
    big = pick(rng, WIDTHS[:6])
    wide = job.get('wide')          # 0: rows of the matrix, 1: its columns, 2, 3: dimensions of a parent
    if job['own'] is None:
        shape = tuple(int(n) for n in rng.integers(1, 4, size=2))
        if wide in (0, 1):
            shape = tuple(big if k == wide else n for k, n in enumerate(shape))
        gaps = rng.random(shape) < (.3 if rng.random() < .5 else 0)
        mat = m.add_matrix(val=np.where(gaps, 0, pm(rng, *shape)).astype(np.int8), fixed=False)
        own = None
    else:
        K = job['K']
        steep = rng.random() < .25
        dshape = tuple(int(n) for n in rng.integers(1, (4 if K == 2 else 3) + (3 if steep else 0), size=K))
        at = int(rng.integers(0, 2))
        if wide == 0:
            dshape = tuple(big if k == at else n for k, n in enumerate(dshape))
        d = m.add_matrix(val=data(rng, dshape, .2), fixed=True)
        own = m.add_layer(latent_size=big if wide == 1 else int(rng.integers(1, 4)), child=d, model=job['own'])
        mat = own.factors[at] if wide == 0 else pick(rng, own.factors)
        lam = int(rng.integers(1, 200)) * (30000 if steep else 10000)
        lam *= pick(rng, [1] * 8 + [0, -1])
        own.lbda.val = lam / MICRO
    pars = []
    for p in job['par']:
        lay = m.add_layer(latent_size=big if wide in (2, 3) and not pars else int(rng.integers(1, 4)), child=mat, model=p)
        lp = int(rng.integers(1, 300)) * 10000 * pick(rng, [1] * 8 + [0, -1])
        lay.lbda.val = lp / MICRO
        pars.append((lay, lp))
    prior = pick(rng, [0, -700000, 400000])
    mat.bernoulli_prior = prior_of(prior)
    for s in range(3):
        for q in m.members:
            if q is not mat and not (job['own'] and q is d):
                q.val = (2 * (rng.random(q.val.shape) < pick(rng, [.3, .5, .7])) - 1).astype(np.int8)
        for ly in ([own] if own else []) + [q for q, _ in pars]:
            if ly.size > 8:
                for f, v in zip(ly.factors, hot(rng, ly.model, [len(f.val) for f in ly.factors], ly.size, 4)[0]):
                    f.val = v
        if own is None:
            mat.val = np.where(gaps, 0, pm(rng, *mat.val.shape)).astype(np.int8)
            if s == 0 and gaps.any():
                stays(m, mat, tuple(int(v) for v in np.argwhere(gaps)[0]), ev, '%s/%s' % (job['tag'], '+'.join(job['par'])))
            if gaps.all():
                return
        elif own.size <= 8:
            mat.val = pm(rng, *mat.val.shape)
        live = np.argwhere(mat.val != 0)
        idx = tuple(int(v) for v in live[int(rng.integers(0, len(live)))])
        ev.append(site(m, mat, idx, lam, prior, pars, tag='%s/%s<%s' % (job['tag'], job['own'], '+'.join(job['par']))))
        # and a factor of a parent layer, whose data is the latent matrix itself
        lay, lp = pick(rng, pars)
        f = pick(rng, lay.factors)
        f.bernoulli_prior = prior_of(300000)
        idx = tuple(int(rng.integers(0, n)) for n in f.val.shape)
        ev.append(site(m, f, idx, lp, 300000, (), tag='top/%s' % lay.model))
