"""Expected products: probabilities are multiples of 1/B, outputs compared as exact integers."""
import itertools
from common import *


def jobs(tier, seed):
    out = []
    for model in ALL36:
        for K in (2, 3):
            if model not in CLANS and K == 3 and tier == 'quick' and (sum(map(ord, model)) + seed) % 3:
                continue
            for L, B in ((1, 4), (2, 2), (3, 1)):
                if K == 3 and L == 3 and model not in CLANS and tier == 'quick':
                    continue
                out.append(dict(tag=model, model=model, K=K, L=L, B=B, kind='all', seed=seed))
            for r in range(4 if tier == 'quick' else 30):
                out.append(dict(tag=model, model=model, K=K, kind='rand', r=r, seed=seed))
        for K in (1, 4, 5):
            for r in range(2 if tier == 'quick' else 12):
                out.append(dict(tag=model, model=model, K=K, kind='rand', r=r, seed=seed))
        for K in (2, 3):
            for r in range(2 if tier == 'quick' else 12):
                if (K == 2 or model in CLANS) and (tier != 'quick' or model in CLANS or (r + sum(map(ord, model)) + seed) % 3 == 0):
                    out.append(dict(tag=model, model=model, K=K, kind='wide', r=r, seed=seed))
    return out


def compute(route, model, fs):
    K = len(fs)
    if route == 'fast':
        return aux.lom_generate_data_fast([f.copy() for f in fs], model, fuzzy=True)
    if route == 'general':
        return .5 * (1 + np.asarray(aux.lom_generate_data_fuzzy([2 * f - 1 for f in fs], model)))
    get = getattr(lupd, 'get_scalar_output_function_%dd' % K, None)
    fn = get(model, fuzzy=True) if get is not None else None
    if fn is None:
        return None
    out = np.zeros([len(f) for f in fs])
    for ix in np.ndindex(*out.shape):
        out[ix] = fn(*[f[i] for f, i in zip(fs, ix)])
    return out


def observe(job, ev):
    model, K = job['model'], job['K']
    rng = rng_for('C02', model, K, job['kind'], job.get('L'), job.get('r'), job['seed'])
    if job['kind'] == 'all':
        L, B = job['L'], job['B']
        rows = np.array(list(itertools.product(range(B + 1), repeat=L)))
        if K == 3 and len(rows) > 6:
            fs = [rows, rows[rng.permutation(len(rows))[:5]], rows]
        else:
            fs = [rows] * K
    elif job['kind'] == 'wide':     # many dimensions, of which few are not decided
        H, B = ((3, 3), (2, 4))[int(rng.integers(0, 2))] if K == 2 else (2, 3)
        fs, at = hot(rng, model, [int(v) for v in rng.integers(1, 4, size=K)], WIDTHS[int(rng.integers(0, 8))], H)
        fs = [B * (f.astype(int) + 1) // 2 for f in fs]
        for f in fs:
            f[:, at] = rng.integers(0, B + 1, size=(len(f), len(at)))
        L = H
    elif K > 3 or K == 1:
        L = int(rng.integers(1, 4))
        B = {1: 9 if K < 5 else 7, 2: 4 if K < 5 else 3, 3: 2}[L]
        fs = [rng.integers(0, B + 1, size=(int(n), L)) for n in rng.integers(1, 4 if K < 5 else 3, size=K)]
    else:
        L = int(rng.integers(1, 6 if K == 2 else 4))
        B = {1: 9, 2: 7 if K == 2 else 4, 3: 5 if K == 2 else 3, 4: 4, 5: 3}[L]
        fs = [rng.integers(0, B + 1, size=(int(n), L)) for n in rng.integers(1, 4, size=K)]
    M = B ** (K * L)
    for route in ('fast', 'scalar', 'general'):
        if route == 'scalar' and model not in CLANS:
            continue
        p = compute(route, model, [f / B for f in fs])
        if p is None:
            continue
        p = np.asarray(p, dtype=float)
        w = np.round(np.where(np.isfinite(p), np.clip(p, -9, 9), 9) * M)
        r = np.where(np.isfinite(p), np.round(np.abs(np.clip(p, -9, 9) * M - w) * 1000 / max(1, M * 1e-7)), 99)
        ev.append(dict(op='fuzzy', tag='%s/%dD/%s' % (route, K, model), B=B, **op(model),
                       f=[f.astype(int).tolist() for f in fs], w=w.astype(int).tolist(),
                       r=r.astype(int).tolist(), **(dict(h=L) if job['kind'] == 'wide' else {})))
