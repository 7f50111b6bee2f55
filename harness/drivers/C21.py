"""Histories of inference and changed settings: conditionals and dispersions in later runs, and
twins (a new machine with the same current state behaves the same)."""
from common import *
from sites import *
import lifecycle as lc
import twins
from drivers.C14 import dispersion, micro
from drivers.C06 import PRIORS


def jobs(tier, seed):
    k = 1 if tier == 'quick' else 14
    return ([dict(tag='site', r=r, seed=seed) for r in range(200 * k)] +
            [dict(tag='max', r=r, seed=seed) for r in range(40 * k)] +
            [dict(tag='qL', r=r, seed=seed) for r in range(40 * k)] +
            [dict(tag='lbda', r=r, seed=seed) for r in range(120 * k)] +
            [dict(tag='twin', r=r, seed=seed) for r in range(260 * k)])


def pick(rng, xs):
    return xs[int(rng.integers(0, len(xs)))]


def redraw(rng, m, inplace):
    v = np.where(rng.random(m.val.shape) < .4, -m.val, m.val).astype(np.int8)
    if inplace:
        m.val[...] = v
    else:
        m.val = v


def allfree(mc):
    datas = [l.child for l in mc.layers if l.child.layer is None]
    for m in mc.members:
        m.fixed = any(m is d for d in datas)
        m.fixed_entries = np.zeros(m.val.shape, dtype=np.int8)
    for p in mc.lbdas:
        p.fixed = False


def short_run(mc, rng, n=None):
    mc.infer(**twins.random_settings(rng))


def add_parent(mc, rng, three=()):
    """another layer above a factor"""
    cand = [f for l in mc.layers if l.model in CLANS for f in l.factors if len(f.parents) < (1 if len(l.factors) == 3 else 2)]
    if cand:
        f = pick(rng, cand)
        ly = mc.add_layer(latent_size=int(rng.integers(1, 3)), child=f, model=pick(rng, CLANS))
        ly.lbda.val = int(rng.integers(1, 200)) / 100
        return True


def site_job(job, ev, rng):
    kind = pick(rng, ['2D', '3D', 'deep', 'two', 'open', 'chain'])
    mc = lc.machine_of(kind, rng)
    if rng.random() < .5:
        lc.perturb(mc, rng)
    short_run(mc, rng)
    for step in range(3):
        what = []
        # settings change
        allfree(mc)
        if rng.random() < .35 and add_parent(mc, rng):
            what.append('layer')
            allfree(mc)
        for m in mc.members:
            if rng.random() < .5:
                redraw(rng, m, rng.random() < .5)
                what.append('val')
        for l in mc.layers:
            l.lbda.val = int(rng.integers(1, 250)) / 100
            if rng.random() < .3:
                l.lbda.beta_prior = (2, 3)
        pri = {}
        for m in mc.members:
            pri[id(m)] = pick(rng, [0, 0, -700000, 400000, 2500000])
            m.bernoulli_prior = prior_of(pri[id(m)])
        # one conditional
        opts = [m for m in mc.members if m.layer is not None or (kind == 'open' and m.parents)]
        mat = pick(rng, opts)
        live = np.argwhere(np.asarray(mat.val) != 0)
        if len(live):
            idx = tuple(int(v) for v in live[int(rng.integers(0, len(live)))])
            own = mat.layer
            lam = int(round(own.lbda.val * 1e6)) if own is not None else 0
            pars = [(p, int(round(p.lbda.val * 1e6))) for p in mat.parents]
            ev.append(site(mc, mat, idx, lam, pri[id(mat)], pars, tag='site/%s/%d' % (kind, step)))
        # and another inference with other settings
        allfree(mc)
        if rng.random() < .6:
            lc.perturb(mc, rng)
            for p in mc.lbdas:
                p.fixed = rng.random() < .5
        short_run(mc, rng)


def max_job(job, ev, rng):
    mc = lc.machine_of('max', rng)
    lay, d = mc.layers[0], mc.layers[0].child
    for step in range(3):
        allfree(mc)
        if rng.random() < .5:
            lc.perturb(mc, rng)
        short_run(mc, rng)
        allfree(mc)
        if rng.random() < .6:
            lay.lbda.val = dispersion(rng, lay.size)
        for f in lay.factors:
            f.bernoulli_prior = .5
            if rng.random() < .5:
                redraw(rng, f, rng.random() < .5)
        if rng.random() < .3:
            d.val = data(rng, d.val.shape, .2)
        v = np.array(lay.lbda.val, dtype=float)
        if not ((v > 0) & (v < 1)).all():
            continue
        own = int(rng.integers(0, 2))
        mat = lay.factors[own]
        idx = tuple(int(rng.integers(0, n)) for n in mat.val.shape)
        e = dict(op='maxsite', tag='max/%d' % step, lam=micro(v),
                 lp=[int(round(math.log(a) * 1e6)) for a in v], lm=[int(round(math.log(1 - a) * 1e6)) for a in v],
                 f=[ints(f.val) for f in lay.factors], x=ints(d.val), m=own + 1, n=idx[0] + 1, l=idx[1] + 1)
        freeze(mc, mat, idx)
        up, dn, same = site_logodds(mc, mat, idx)
        e.update(lo=logodds_micro(up, dn), same=bool(same))
        ev.append(e)


def ql_job(job, ev, rng):
    mc = lc.machine_of('qL', rng)
    lay, d = mc.layers[0], mc.layers[0].child
    for step in range(3):
        allfree(mc)
        if rng.random() < .5:
            lc.perturb(mc, rng)
        short_run(mc, rng)
        allfree(mc)
        lam, prior = int(rng.integers(1, 300)) * 10000, pick(rng, [0, -700000, 400000, 2500000])
        lay.lbda.val = lam / MICRO
        for f in lay.factors:
            f.bernoulli_prior = prior_of(prior)
            redraw(rng, f, rng.random() < .5)
        if rng.random() < .5:
            lay.q.val = rng.integers(1, 4, size=lay.q.val.shape).astype(np.int8)
        own = int(rng.integers(0, 2))
        mat = lay.factors[own]
        idx = tuple(int(rng.integers(0, n)) for n in mat.val.shape)
        e = dict(op='qsite', tag='qL/%d' % step, lam=lam, prior=prior, m=own + 1, n=idx[0] + 1, l=idx[1] + 1,
                 f=[ints(f.val) for f in lay.factors], q=ints(lay.q.val)[0], x=ints(d.val))
        freeze(mc, mat, idx)
        up, dn, same = site_logodds(mc, mat, idx)
        e.update(lo=logodds_micro(up, dn), same=bool(same))
        ev.append(e)


def lbda_job(job, ev, rng):
    kind = pick(rng, ['2D', '3D', '2D', '3D', 'max', 'qL'])
    mc = lc.machine_of(kind, rng)
    lay, d = mc.layers[0], mc.layers[0].child
    for step in range(3):
        if rng.random() < .6:
            lc.perturb(mc, rng)
        short_run(mc, rng)
        allfree(mc)
        a, b, q = PRIORS[int(rng.integers(0, len(PRIORS)))] if kind != 'max' else (1, 1, 1)
        lay.lbda.beta_prior = (a / q, b / q)
        for f in lay.factors:
            if rng.random() < .7:
                redraw(rng, f, rng.random() < .5)
        if rng.random() < .7:
            x = np.where(rng.random(d.val.shape) < .2, data(rng, d.val.shape, .2), d.val).astype(np.int8)
            if rng.random() < .5:
                d.val = x
            else:
                d.val[...] = x
        for m in mc.members:
            m.fixed = True
        before = [m.val.copy() for m in mc.members]
        one_iteration(mc)
        same = all(np.array_equal(u, m.val) for u, m in zip(before, mc.members))
        lam = lay.lbda()
        e = dict(tag='lbda/%s/%d' % (kind, step), f=[ints(f.val) for f in lay.factors], x=ints(d.val), same=bool(same))
        if kind == 'max':
            e.update(op='maxlam', lam=micro(np.asarray(lam, dtype=float)))
        else:
            s = scaled(1 / (1 + math.exp(-float(lam)))) if np.ndim(lam) == 0 and np.isfinite(lam) else -1
            if kind == 'qL':
                e.update(op='qlbda', a=a, b=b, den=q, s=s, q=ints(lay.q.val)[0])
            else:
                e.update(op='lbda', a=a, b=b, q=q, s=s, **op(lay.model))
        ev.append(e)


def change(mc, rng, ibp):
    """what a user may do between two runs"""
    if not ibp:
        for m in mc.members:
            if rng.random() < .3 and (np.asarray(m.val) != 0).all() and set(np.unique(m.val)) <= {-1, 1}:
                redraw(rng, m, rng.random() < .5)
        lc.perturb(mc, rng)
        if rng.random() < .25:
            add_parent(mc, rng)
    for m in mc.members:
        if rng.random() < .3:
            m.bernoulli_prior = pick(rng, [.5, .3, .8])
    for l in mc.layers:
        if rng.random() < .4 and l.model != 'MAX-AND':
            l.lbda.val = float(rng.uniform(.1, 2))
        if rng.random() < .3:
            l.lbda.beta_prior = pick(rng, [(1, 1), (3, 1), (2, 5)])
        l.lbda.fixed = bool(rng.random() < .25)
        if hasattr(l, 'gamma') and rng.random() < .5:
            l.gamma = pick(rng, [.5, 1, 2])
        if ibp and rng.random() < .5:
            l.alpha = pick(rng, [.5, 2., 4.])
        if l.model in CLANS and rng.random() < .2:
            if rng.random() < .5:
                l.auto_clean = not l.auto_clean
            else:
                l.auto_reset = not l.auto_reset
    datas = [l.child for l in mc.layers if l.child.layer is None and l.child.fixed]
    for d in datas:
        if rng.random() < .3:
            d.val = data(rng, d.val.shape, .1)


def twin_job(job, ev, rng):
    kind = (lc.KINDS + ['ibp'])[job['r'] % (len(lc.KINDS) + 1)]
    if kind == 'ibp':
        mc, _, lay = build(data(rng, (int(rng.integers(2, 5)), int(rng.integers(1, 5))), .1), 'OR-AND-IBP', 2)
        lay.alpha = 2.
    else:
        mc = lc.machine_of(kind, rng)
        lc.perturb(mc, rng)
    for step in range(1, 3):
        mc.infer(**twins.random_settings(rng, mc.anneal))
        if rng.random() < .3:
            for l in mc.layers:
                l.output(technique=pick(rng, ['point_estimate', 'factor_map']))
        change(mc, rng, kind == 'ibp')
        if any(int(l.size) == 0 for l in mc.layers):
            return
        mc.anneal = bool(rng.random() < .2)
        other = twins.clone(mc)
        kw = twins.random_settings(rng, mc.anneal)
        seed = int(rng.integers(0, 2**31))
        res = []
        for k, m in enumerate((mc, other)):
            np.random.seed(seed)
            with twins.poison(17 + 31 * k):
                m.infer(**kw)
            res.append(twins.results(m))
        twins.pair(ev, 'twin/%s/%d' % (kind, step), *res)


def observe(job, ev):
    rng = rng_for('C21', job['tag'], job['r'], job['seed'])
    np.random.seed(int(rng.integers(0, 2**31)))
    dict(site=site_job, max=max_job, qL=ql_job, lbda=lbda_job, twin=twin_job)[job['tag']](job, ev, rng)
