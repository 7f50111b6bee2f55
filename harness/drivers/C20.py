"""Expected densities and factor densities, at rational factor densities a/B."""
from common import *

# B^(K L) must fit 31 bits (TLC integers)
FITS = {2: 29, 3: 18, 4: 14, 5: 13, 10: 9}


def jobs(tier, seed):
    return [dict(tag=m, model=m, seed=seed, n=1 if tier == 'quick' else 8) for m in ALL36]


def observe(job, ev):
    model = job['model']
    rng = rng_for('C20', model, job['seed'])
    for B, lim in FITS.items():
        for K in (2, 3, 4, 5):
            for L in range(1, 16):
                if K * L > lim or B ** K < 2:
                    continue
                for a in sorted(set([0, B] + [int(v) for v in rng.integers(0, B + 1, size=2)])):
                    den = B ** (K * L)
                    d = float(aux.expected_density(model, L, K, a / B))
                    w = d * den
                    tol = max(1e-3, 1e-12 * den)
                    e = dict(op='density', tag='density/' + model, **op(model), K=K, L=L, a=a, B=B,
                             w=int(round(w)) if abs(w) < 2**31 - 1 else -1, r=0 if abs(w - round(w)) < tol else 1)
                    ev.append(e)
                    if rng.random() < .06 * job['n']:
                        f = float(aux.factor_density(model, L, K, d))
                        ev.append(dict(e, op='inverse', tag='inverse/' + model, f=scaled(f),
                                       back=scaled(aux.expected_density(model, L, K, f)), want=scaled(d)))
