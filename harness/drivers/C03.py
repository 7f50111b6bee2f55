"""Canonical models: every requested model, given data, shape only, latent child."""
from common import *


def jobs(tier, seed):
    out = []
    for model in ALL36:
        for K in (2, 3):
            for kind in ('data', 'shape', 'latent') if K == 2 else ('data', 'shape'):
                for r in range(2 if tier == 'quick' else 10):
                    out.append(dict(tag=model, model=model, K=K, kind=kind, r=r, seed=seed))
    return out


def flags(lay):
    return bool(lay.invert_data), bool(lay.invert_factors)


def canon(model, lay, K, ev):
    u = op(lay.model)
    d, f = flags(lay)
    ev.append(dict(op='canon', tag='canon/%s' % model, **op(model), uo=u['o'], ui=u['i'], invd=d, invf=f, K=K))


def observe(job, ev):
    model, K, kind = job['model'], job['K'], job['kind']
    rng = rng_for('C03', model, K, kind, job['r'], job['seed'])
    shape = tuple(int(n) for n in rng.integers(1, 4, size=K))
    L = int(rng.integers(1, 4))
    m = lom.Machine()
    if kind == 'shape':
        lay = m.add_layer(latent_size=L, shape=shape, model=model)
        ev.append(dict(op='shaped', tag='shaped/%s' % model, dims=list(shape), L=L,
                       fdims=[int(f().shape[0]) for f in lay.factors],
                       fl=[int(f().shape[1]) for f in lay.factors],
                       after=ints(lay.child()), f=[ints(f()) for f in lay.factors]))
    else:
        x = data(rng, shape, .2)
        if job['r'] % 2:
            x = x.astype(rng.choice([np.int64, np.float64]))
        keep = x.copy()
        if kind == 'data':
            d = m.add_matrix(val=x, fixed=True)
            child, before = d, x
        else:
            base = m.add_layer(latent_size=2, child=m.add_matrix(val=x, fixed=True), model='OR-AND')
            child = base.factors[int(rng.integers(0, 2))]
            before = child().copy()
            shape = before.shape
        lay = m.add_layer(latent_size=L, child=child, model=model)
        dd, ff = flags(lay)
        ev.append(dict(op='invert', tag='invert/%s/%s' % (kind, model), dims=list(shape),
                       x=ints(keep if kind == 'data' else before), after=ints(lay.child()),
                       caller=ints(x) if kind == 'data' else ints(before),
                       first=ints(x), kept=ints(keep), invd=dd, invf=ff))
    canon(model, lay, K, ev)
