"""Products: every generation route, every operator pair."""
import itertools
from common import *

LMAX = {2: 3, 3: 3, 4: 2}


def all_rows(L):
    return np.array(list(itertools.product([-1, 1], repeat=L)), dtype=np.int8)


def routes(model, K):
    r = ['general', 'fast']
    if model in CLANS and K in (2, 3):
        r += ['scalar', 'layer']
    if model == 'OR-AND' and K == 3:
        r += ['btp']
    return r


def jobs(tier, seed):
    out = []
    reps = 2 if tier == 'quick' else 12
    for model in ALL36:
        for K in (1, 5):
            for r in range(reps):
                out.append(dict(tag=model, model=model, K=K, kind='rand', r=r, seed=seed))
        for K in (2, 3, 4):
            for L in range(1, LMAX[K] + 1):
                if K == 4 and L == 2 and tier == 'quick' and (hash_(model) + seed) % 6:
                    continue
                out.append(dict(tag=model, model=model, K=K, kind='all', L=L, seed=seed))
            for r in range(reps):
                out.append(dict(tag=model, model=model, K=K, kind='rand', r=r, seed=seed))
            if model in CLANS and K < 4 or (hash_(model) + seed) % 4 == K - 2 or tier != 'quick':
                out.append(dict(tag=model, model=model, K=K, kind='wide', seed=seed))
    return out


def hash_(s):
    return sum(map(ord, s))


def sparse(rng, n, L):
    """rows with a wide range of densities, so that 'exactly one' is common"""
    p = rng.choice([.1, .3, .5, .7, .9], size=(n, 1))
    return (2 * (rng.random((n, L)) < p) - 1).astype(np.int8)


def compute(route, model, fs):
    K = len(fs)
    if route == 'general':
        return aux.lom_generate_data([f.copy() for f in fs], model)
    if route == 'fast':
        return aux.lom_generate_data_fast([f.copy() for f in fs], model)
    if route == 'btp':
        kind = [bool, np.int8, int, float][int(sum(f.sum() for f in fs)) % 4]
        return 2 * np.asarray(aux.boolean_tensor_product(*[(f == 1).astype(kind) for f in fs])).astype(int) - 1
    if route == 'scalar':
        get = getattr(lupd, 'get_scalar_output_function_%dd' % K, None)
        fn = get(model) if get is not None else None
        if fn is None:
            return None
        out = np.zeros([len(f) for f in fs], dtype=int)
        for ix in np.ndindex(*out.shape):
            out[ix] = fn(*[f[i] for f, i in zip(fs, ix)])
        return out
    if route == 'layer':
        m = lom.Machine()
        lay = m.add_layer(latent_size=fs[0].shape[1], shape=tuple(len(f) for f in fs), model=model)
        for a, f in zip(lay.factors, fs):
            a.val = f.copy()
        return lay.output(technique='point_estimate', map_to_probabilities=False)


def observe(job, ev):
    model, K = job['model'], job['K']
    rng = rng_for(model, K, job['kind'], job.get('L'), job.get('r'), job['seed'])
    cases = []
    if job['kind'] == 'all':
        cases.append([all_rows(job['L'])] * K)
    elif job['kind'] == 'rand':
        L = int(rng.integers(1, 8))
        cases.append([sparse(rng, int(n), L) for n in rng.integers(1, 5 if K < 4 else 4, size=K)])
    else:
        for L in (130, 260):
            fs = [sparse(rng, n, L) for n in (3, 2, 2, 1)[:K]]
            for f in fs:                      # one row where 257 (or 129) dimensions are active ...
                f[0] = 1
                f[0, 257 if L == 260 else 129:] = -1
            fs[1][-1] = -1                    # ... and one where a single dimension is
            fs[0][-1] = -1
            fs[1][-1, L // 2] = 1
            fs[0][-1, L // 2] = 1
            cases.append(fs)
        for L, c in ((257, 257), (260, 257), (130, 129), (260, 128), (260, 256)):
            # exactly c (or all but c) true inputs for every inner operator
            a = np.ones([3, L], dtype=np.int8)
            a[0, c:] = -1
            a[1] = -a[0]
            a[2, 1 + L // 2:] = -1
            b = np.ones([2, L], dtype=np.int8)
            b[1] = -1
            cases.append([a] + [b.copy() for _ in range(K - 1)])
    if job['kind'] == 'rand' and (job['r'] + job['seed']) % 2 == 0 and model in CLANS and K in (2, 3):
        reused(model, K, cases[0], rng, ev)
    for fs in cases:
        for route in routes(model, K):
            x = compute(route, model, fs)
            if x is None:
                continue
            ev.append(dict(op='prod', tag='%s/%dD/%s' % (route, K, model), **op_(model),
                           f=[ints(f) for f in fs], x=ints(x)))


def reused(model, K, fs, rng, ev):
    """one layer, asked again after its factors changed: in place or replaced, also in size"""
    m = lom.Machine()
    lay = m.add_layer(latent_size=fs[0].shape[1], shape=tuple(len(f) for f in fs), model=model)
    for a, f in zip(lay.factors, fs):
        a.val = f.copy()
    for step in range(4):
        cur = [np.array(a.val) for a in lay.factors]
        x = lay.output(technique='point_estimate', map_to_probabilities=False)
        ev.append(dict(op='prod', tag='again%d/%dD/%s' % (step, K, model), **op_(model),
                       f=[ints(f) for f in cur], x=ints(x)))
        k = int(rng.integers(0, K))
        v = lay.factors[k].val
        if step == 0:
            ix = tuple(int(rng.integers(0, n)) for n in v.shape)
            v[ix] = -v[ix]
        elif step == 1:
            v[...] = -v
        elif step == 2:
            lay.factors[k].val = sparse(rng, *v.shape)


def op_(m):
    return op(m)
