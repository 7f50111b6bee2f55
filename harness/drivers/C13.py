"""Outputs of layers after all kinds of histories."""
from common import *
import lifecycle as lc

TECH = ['factor_map', 'factor_mean', 'mc', 'point_estimate', 'factor_mean_old']


def jobs(tier, seed):
    n = 420 if tier == 'quick' else 8000
    return [dict(tag='out', r=r, seed=seed) for r in range(n)]


def samples(mat, n):
    """the recorded samples of a matrix: its value n times if it has none"""
    tr = getattr(mat, 'trace', None)
    if tr is None:
        return [ints(mat.val)] * n
    return ints(tr)


def observe(job, ev):
    rng = rng_for('C13', job['r'], job['seed'])
    np.random.seed(int(rng.integers(0, 2**31)))
    K = 2 if job['r'] % 3 else 3
    L = int(rng.integers(1, 4 if K == 2 else 3))
    shape = tuple(int(v) for v in rng.integers(1, 5 if K == 2 else 4, size=K))
    long = job['r'] % 30 == 1            # many samples of a small machine
    if long:
        K, L, shape = 2, 1, (2, 2)
    wide = job['r'] % 15 == 4            # many dimensions, or a long axis
    if wide:
        if rng.random() < .6:
            L = WIDTHS[int(rng.integers(0, 6))]
        else:
            at = int(rng.integers(0, K))
            shape = tuple(WIDTHS[int(rng.integers(0, 5))] if k == at else min(v, 2) for k, v in enumerate(shape))
    model = CLANS[int(rng.integers(0, 8))]
    mc = lom.Machine()
    d = mc.add_matrix(val=data(rng, shape, .1), fixed=True)
    layers = [mc.add_layer(latent_size=L, child=d, model=model)]
    if K == 2 and not long and not wide and rng.random() < .3:
        layers.append(mc.add_layer(latent_size=int(rng.integers(1, 3)), child=layers[0].factors[int(rng.integers(0, 2))],
                                   model=CLANS[int(rng.integers(0, 8))]))
    for run in range(1 + job['r'] % 3):
        for m in mc.members:
            if m is not d:
                m.fixed = bool(rng.random() < .25)
        for ly in layers:
            ly.lbda.fixed = bool(rng.random() < .3)
            ly.lbda.val = float(rng.uniform(.05, 1.5))
        n = int(rng.choice([1, 2, 3, 4] if K * L <= 4 else [1, 2]))
        if L > 8:
            n = int(rng.integers(1, 5))
            for f, v in zip(layers[0].factors, hot(rng, model, [len(f.val) for f in layers[0].factors], L, 4)[0]):
                f.val = v
        if long:
            n = int(rng.integers(130, 290))
        mc.infer(no_samples=n, burn_in_min=int(rng.integers(0, 3)), burn_in_max=int(rng.integers(0, 4)),
                 convergence_window=2)
        if rng.random() < .3:              # the current state is not part of the record
            for m in mc.members:
                if m is not d and not m.fixed:
                    m.val = pm(rng, *m.val.shape)
            for ly in layers:
                if not ly.lbda.fixed:
                    ly.lbda.val = float(rng.uniform(.05, 1.5))
        for ly in layers:
            anyfree = any(not f.fixed for f in ly.factors) or not ly.lbda.fixed
            T = n if anyfree else 1
            tr = [ints(f.trace) if not f.fixed else [ints(f.val)] * T for f in ly.factors]
            ltr = [float(ly.lbda.val)] if ly.lbda.fixed else [float(v) for v in ly.lbda.trace]
            s = int(round(1e5 / (1 + math.exp(-sum(ltr) / len(ltr)))))
            for q in range(4):
                tech = TECH[int(rng.integers(0, len(TECH)))]
                if L > 8 and T > 1 and tech[:11] == 'factor_mean':
                    continue
                noisy, mapped = bool(rng.integers(0, 2)), bool(rng.random() < .7)
                noisy = noisy and not (long and tech[:11] == 'factor_mean')
                out = np.asarray(ly.output(technique=tech, noisy_emission=noisy, map_to_probabilities=mapped), dtype=float)
                LL = ly.factors[0].val.shape[1]
                den = {'point_estimate': 1, 'factor_map': 1, 'mc': T}.get(tech, T ** (len(ly.factors) * LL))
                w = out * den
                e = dict(op='out', tag='%dD/%s/%s' % (len(ly.factors), tech, ly.model), **op(ly.model), tech=tech,
                         noisy=noisy, mapped=mapped, s=s, cur=[ints(f.val) for f in ly.factors], tr=tr, den=den)
                if noisy:
                    e.update(v=scaled(out, 100000), w=scaled(out, 1))
                else:
                    e.update(w=scaled(w, 1), r=scaled(np.abs(w - np.round(w)), 1e5))
                ev.append(e)
                if q % 2 == 0:      # the output last computed, mapped as asked for now
                    mapped = bool(rng.integers(0, 2))
                    out = np.asarray(ly.output(technique=TECH[int(rng.integers(0, len(TECH)))], lazy=True,
                                               noisy_emission=bool(rng.integers(0, 2)), map_to_probabilities=mapped), dtype=float)
                    w = out * den
                    e = dict(e, tag=e['tag'] + '/lazy', mapped=mapped)
                    e.update(dict(v=scaled(out, 100000), w=scaled(out, 1)) if noisy else
                             dict(w=scaled(w, 1), r=scaled(np.abs(w - np.round(w)), 1e5)))
                    ev.append(e)
        for m in mc.members:
            if not m.fixed:
                mean = np.asarray(m.mean(), dtype=float)
                ev.append(dict(op='mean', tag='mean', cur=lc.rows(m.val), t=[lc.rows(t) for t in m.trace],
                               mean=lc.rows(np.where(np.abs(mean * n - np.round(mean * n)) < 1e-6, np.round(mean * n), 99.5))))
