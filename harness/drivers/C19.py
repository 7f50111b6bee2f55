"""Noise and random data generators."""
from common import *
import lom.experiments as exper

PS = [(0, 1), (1, 1), (1, 2), (1, 4), (3, 4), (1, 10), (2, 5)]
FNS = ['add_bernoulli_noise', 'add_bernoulli_noise_2d', 'add_bernoulli_noise_2d_biased']


def jobs(tier, seed):
    k = 1 if tier == 'quick' else 12
    return ([dict(tag='noise', r=r, seed=seed) for r in range(90 * k)] +
            [dict(tag='noised', r=r, seed=seed) for r in range(75 * k)] +
            [dict(tag='orm', r=r, seed=seed) for r in range(40 * k)] +
            [dict(tag='mat', r=r, seed=seed) for r in range(20 * k)] +
            [dict(tag='tensor', r=r, seed=seed) for r in range(40 * k)] +
            [dict(tag='tensord', r=r, seed=seed) for r in range(8 * k)])


def flat(a):
    return ints(np.asarray(a).reshape(-1))


def pick(rng, xs):
    return xs[int(rng.integers(0, len(xs)))]


def setting(rng, fn, big):
    nd = 3 if fn == FNS[0] else 2
    if big:
        shape = tuple(int(v) for v in rng.integers(1, 7, size=nd))
    else:
        shape = pick(rng, [(1, 2, 2), (3, 1, 1), (1, 1, 4), (2, 2, 1)] if nd == 3 else [(1, 3), (2, 2), (4, 1)])
    bl = fn == FNS[0] and rng.random() < .5
    if bl:
        x = rng.random(shape) < .5
    else:
        x = pm(rng, *shape)
        x[rng.random(shape) < float(rng.choice([0, .3]))] = 0
        if rng.random() < .3:
            x = x.astype(int)
    pp, pmi = pick(rng, PS), pick(rng, PS)
    if fn != FNS[2]:
        pmi = pp
    return x, pp, pmi, bl


def call(fn, x, pp, pmi, seed):
    f = getattr(aux, fn)
    a, b = pp[0] / pp[1], pmi[0] / pmi[1]
    if fn == FNS[0]:
        if seed is not None:
            np.random.seed(seed)
        return f(x, a)
    if fn == FNS[1]:
        return f(x, a, seed=seed) if seed is not None else f(x, a)
    return f(x, a, b, seed=seed) if seed is not None else f(x, a, b)


def noise(job, ev, rng):
    fn = FNS[job['r'] % 3]
    x, pp, pmi, bl = setting(rng, fn, True)
    orig = x.copy()
    seed = pick(rng, [0, 1, 17, int(rng.integers(0, 10000))])
    y = call(fn, x, pp, pmi, seed)
    after = flat(x)
    yl = flat(y)
    np.random.rand(int(rng.integers(1, 5)))     # other use of the generator in between
    y2 = call(fn, orig.copy(), pp, pmi, seed)
    e = dict(op='noise', tag=fn, bool=bool(bl), pp=list(pp), pm=list(pmi), shape=list(orig.shape), yshape=list(np.shape(y)),
             x=flat(orig), after=after, y=yl, y2=flat(y2))
    ev.append(e)
    if isinstance(y, np.ndarray) and np.shares_memory(y, x):      # later changes of the result reach the input
        y[...] = 1
        ev.append(dict(e, after=flat(x), tag=fn + '/alias'))
    # without a seed
    y = call(fn, x, pp, pmi, None)
    ev.append(dict(e, after=flat(x), y=flat(y), y2=flat(y), yshape=list(np.shape(y))))


def noised(job, ev, rng):
    fn = FNS[job['r'] % 3]
    x, pp, pmi, bl = setting(rng, fn, False)
    seed = [None, 5][job['r'] % 2]
    res = {}
    ps = forkrng.paths(lambda: tuple(flat(call(fn, x.copy(), pp, pmi, seed))))
    for p, y in ps:
        res[y] = res.get(y, 0.0) + p
    if len(ps) == 1 and (0 < pp[0] < pp[1] and (bl or (x == 1).any()) or 0 < pmi[0] < pmi[1] and (x == -1).any()):
        raise forkrng.Unsupported('draws not seen')
    ev.append(dict(op='noised', tag='dist/' + fn, bool=bool(bl), pp=list(pp), pm=list(pmi), x=flat(x),
                   out=[dict(y=list(y), p=int(round(p * 1e5))) for y, p in res.items()]))


def orm(job, ev, rng):
    N, D, L = int(rng.integers(3, 12)), int(rng.integers(3, 10)), int(rng.integers(1, 4))
    u, z, x = aux.generate_orm_product(N=N, D=D, L=L)
    ev.append(dict(op='orm', tag='orm', dims=[N, D, L], u=ints(u), z=ints(z), x=ints(x)))


def mat(job, ev, rng):
    shape = pick(rng, [(1, 3), (2, 2), (4, 1), (2, 1)])
    pp = pick(rng, PS)
    out = []
    extra = [(aux, 'binomial')] if hasattr(aux, 'binomial') else []
    ps = forkrng.paths(lambda: np.array(aux.random_machine_matrix(pp[0] / pp[1], shape)), extra=extra)
    if len(ps) == 1 and 0 < pp[0] < pp[1]:
        raise forkrng.Unsupported('draws not seen')
    res = {}
    for p, y in ps:
        res[tuple(flat(y))] = res.get(tuple(flat(y)), 0.0) + p
    ev.append(dict(op='matd', tag='mat', n=int(np.prod(shape)), pp=list(pp), shape=list(shape), yshape=list(ps[0][1].shape),
                   out=[dict(y=list(y), p=int(round(p * 1e5))) for y, p in res.items()]))


def target(L, a, B):
    den = B ** (3 * L)
    num = den - (B ** 3 - a ** 3) ** L
    return num, den


def tensor(job, ev, rng):
    B = pick(rng, [2, 3, 4])
    L = int(rng.integers(1, {2: 7, 3: 6, 4: 5}[B]))
    a = int(rng.integers(0, B + 1))
    num, den = target(L, a, B)
    dims = tuple(int(v) for v in rng.integers(1, 6, size=3))
    nz = pick(rng, [(0, 1), (1, 1), (1, 4)])
    y, x, f, fd = exper.generate_random_tensor(L, dims, noise=nz[0] / nz[1], density=num / den)
    pmc = lambda v: ints(2 * np.asarray(v).astype(int) - 1)
    noisy, y = y, np.array(y)
    noisy[...] = True           # the noisy one may be changed: the clean one stays
    ev.append(dict(op='tensor', tag='tensor', dims=list(dims), L=L, a=a, B=B, num=num, noise=list(nz),
                   fd=int(round(fd * 1e6)), f=[pmc(v) for v in f], x=pmc(x), y=pmc(y)))


def tensord(job, ev, rng):
    B, L = pick(rng, [(2, 1), (2, 2), (4, 1), (3, 2)])
    a = int(rng.integers(1, B))
    num, den = target(L, a, B)
    nz = pick(rng, [(0, 1), (1, 4), (1, 2)])
    ps = forkrng.paths(lambda: tuple(bool(np.asarray(v).reshape(-1)[0]) for v in
                                     exper.generate_random_tensor(L, (1, 1, 1), noise=nz[0] / nz[1], density=num / den)[:2]))
    if len(ps) == 1:
        raise forkrng.Unsupported('draws not seen')
    ev.append(dict(op='tensord', tag='tensord', a=a, B=B, L=L, noise=list(nz),
                   d=int(round(sum(p for p, o in ps if o[1]) * 1e5)), dy=int(round(sum(p for p, o in ps if o[0]) * 1e5))))


def observe(job, ev):
    rng = rng_for('C19', job['tag'], job['r'], job['seed'])
    np.random.seed(int(rng.integers(0, 2**31)))
    dict(noise=noise, noised=noised, orm=orm, mat=mat, tensor=tensor, tensord=tensord)[job['tag']](job, ev, rng)
