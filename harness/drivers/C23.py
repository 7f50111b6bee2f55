"""Machines with many (or only) missing cells; machines without the missing rows and columns."""
from common import *
from sites import *
import lifecycle as lc
import drivers.C14 as C14
import drivers.C16 as C16
import drivers.C17 as C17
from drivers.C06 import PRIORS


def heavy(rng, shape, pmiss=0.0):
    return data(rng, shape, float(rng.choice([.4, .7, .9, 1])))


for mod in (C14, C16, C17):
    mod.data = heavy


def jobs(tier, seed):
    k = 1 if tier == 'quick' else 12
    return ([dict(tag='site', r=r, seed=seed) for r in range(160 * k)] +
            [dict(tag='lbda', r=r, seed=seed) for r in range(160 * k)] +
            [dict(tag='max', r=r, seed=seed) for r in range(60 * k)] +
            [dict(tag='qL', r=r, seed=seed) for r in range(80 * k)] +
            [dict(tag='ibp', r=r, seed=seed) for r in range(40 * k)] +
            [dict(tag='absent', r=r, seed=seed) for r in range(300 * k)])


def pick(rng, xs):
    return xs[int(rng.integers(0, len(xs)))]


def site_job(job, ev, rng):
    """canonical models, also below another layer, in machines whose data is mostly missing"""
    K = 2 + job['r'] % 2
    model = CLANS[job['r'] // 2 % 8]
    shape = tuple(int(v) for v in rng.integers(1, 6 if K == 2 else 4, size=K))
    L = int(rng.integers(1, 4))
    mc, d, lay = build(heavy(rng, shape), model, L)
    up = []
    if rng.random() < .3 and K == 2:
        ly = mc.add_layer(latent_size=2, child=lay.factors[int(rng.integers(0, 2))], model=pick(rng, CLANS))
        ly.lbda.val = .7
    if rng.random() < .5:
        mc.infer(no_samples=1, burn_in_min=1, burn_in_max=2, convergence_window=2)
    for s in range(3):
        pri = pick(rng, [0, -700000, 400000, 2500000])
        lam = int(rng.integers(1, 300)) * 10000
        lay.lbda.val = lam / MICRO
        for f in lay.factors:
            f.val = pm(rng, *f.val.shape)
            f.bernoulli_prior = .9
        mat = pick(rng, lay.factors)
        mat.bernoulli_prior = prior_of(pri)
        idx = tuple(int(rng.integers(0, n)) for n in mat.val.shape)
        ev.append(site(mc, mat, idx, lam, pri, [(p, int(round(p.lbda.val * 1e6))) for p in mat.parents], tag='site/%s/%dD' % (model, K)))
        if rng.random() < .5:
            d.val = heavy(rng, shape)


def lbda_job(job, ev, rng):
    K = 2 + job['r'] % 2
    model = CLANS[job['r'] // 2 % 8]
    kind = 'max' if job['r'] % 5 == 4 else 'lbda'
    shape = tuple(int(v) for v in rng.integers(1, 7 if K == 2 or kind == 'max' else 5, size=2 if kind == 'max' else K))
    L = int(rng.integers(1, 5))
    m, d, lay = build(heavy(rng, shape), 'MAX-AND' if kind == 'max' else model, L)
    for f in lay.factors:
        f.val = (2 * (rng.random(f.val.shape) < rng.choice([.3, .5, .8])) - 1).astype(np.int8)
        f.fixed = True
    x = np.asarray(aux.lom_generate_data([f.val for f in lay.factors], 'OR-AND' if kind == 'max' else model)).astype(np.int8)
    x = np.where(rng.random(shape) < .15, -x, x).astype(np.int8)
    x[rng.random(shape) < rng.choice([.4, .7, .9, 1])] = 0
    d.val = x
    fs = [f.val.copy() for f in lay.factors]
    a, b, q = PRIORS[int(rng.integers(0, len(PRIORS)))]
    e = dict(f=[ints(v) for v in fs], x=ints(x))
    if kind == 'max':
        lay.lbda.val = C14.dispersion(rng, L)
    else:
        lay.lbda.beta_prior = (a / q, b / q)
        lay.lbda.val = float(rng.random() * 3)
    one_iteration(m)
    same = np.array_equal(d.val, x) and all(np.array_equal(f.val, v) for f, v in zip(lay.factors, fs))
    lam = lay.lbda()
    if kind == 'max':
        e.update(op='maxlam', tag='maxlam', lam=scaled(np.atleast_1d(lam)), same=bool(same))
    else:
        s = scaled(1 / (1 + math.exp(-float(lam)))) if np.ndim(lam) == 0 and np.isfinite(lam) else -1
        e.update(op='lbda', tag='lbda/%s/%dD' % (model, K), a=a, b=b, q=q, s=s, same=bool(same), **op(model))
    ev.append(e)


def max_job(job, ev, rng):
    new = []
    C14.observe(dict(r=job['r'], seed=job['seed'] + 77), new)
    for e in new:
        if e.get('op') == 'site':
            e.update(op='maxsite', tag='max/' + e['tag'])
    ev.extend(new)


def ql_job(job, ev, rng):
    pick(rng, [C17.site, C17.draw, C17.draw])(job, ev, rng)
    for e in ev:
        e['tag'] = 'qL/' + e['tag']


def ibp_job(job, ev, rng):
    pick(rng, [C16.shared, C16.new])(job, ev, rng)
    for e in ev:
        if 'tag' in e:
            e['tag'] = 'ibp/' + e['tag']


# --------------------------------------------------------------------- absent
def absent_job(job, ev, rng):
    """the same machine, once with rows, columns and slices that are entirely missing, once without"""
    kind = pick(rng, ['2D', '3D', '2D', '3D', 'max', 'qL', 'ibp'])
    K = 3 if kind == '3D' else 2
    model = dict(max='MAX-AND', qL='qL-AND', ibp='OR-AND-IBP').get(kind) or pick(rng, CLANS)
    shape = [int(v) for v in rng.integers(2, 6 if K == 2 else 4, size=K)]
    L = int(rng.integers(1, 4))
    x = data(rng, shape, float(rng.choice([0, .3])))
    if rng.random() < .2:       # a lot that is missing
        ax = int(rng.integers(0, K))
        shape[ax] = pick(rng, WIDTHS[:5 if K == 2 else 2])
        x = data(rng, shape, .2)
    keep = [sorted(rng.permutation(n)[:int(rng.integers(1, min(n, 6) + 1))].tolist()) for n in shape]
    for ax in range(K):
        gone = [j for j in range(shape[ax]) if j not in keep[ax]]
        x[tuple(gone if a == ax else slice(None) for a in range(K))] = 0
    sub = x[np.ix_(*keep)].copy()
    fs = [(2 * (rng.random((n, L)) < .6) - 1).astype(np.int8) for n in shape]
    ms = []
    lam = C14.dispersion(rng, L) if kind == 'max' else float(rng.uniform(.1, 2.5))
    if kind == 'max' and not ((lam > 0) & (lam < 1)).all():
        return
    prior = pick(rng, [.5, .3, .8])
    q = rng.integers(1, 4, size=(1, shape[1])).astype(np.int8)
    beta = pick(rng, [(1, 1), (3, 2)])
    for full in (True, False):
        m, d, lay = build(x if full else sub, model, L)
        for f, v, kp in zip(lay.factors, fs, keep):
            f.val = (v if full else v[kp]).copy()
            f.bernoulli_prior = .5 if kind == 'max' else prior
        lay.lbda.val = np.array(lam, copy=True) if kind == 'max' else lam
        lay.lbda.beta_prior = beta if kind != 'max' else (1, 1)
        if kind == 'qL':
            lay.q.val = (q if full else q[:, keep[1]]).copy()
            lay.gamma = .7
        ms.append((m, lay))
    tag = 'absent/' + (kind if kind[-1] != 'D' else model + '/' + kind)
    # an entry both have
    if kind != 'ibp':
        own = int(rng.integers(0, K))
        r, l = int(rng.integers(0, len(keep[own]))), int(rng.integers(0, L))
        res = []
        for (m, lay), row in zip(ms, (keep[own][r], r)):
            mat = lay.factors[own]
            freeze(m, mat, (row, l))
            res.append(logodds_micro(*site_logodds(m, mat, (row, l))[:2]))
        ev.append(dict(op='near', what='conditional', tag=tag, a=[res[0]], b=[res[1]], tol=8))
        # an entry only the first has
        gone = [j for j in range(shape[own]) if j not in keep[own]]
        if gone:
            m, lay = ms[0]
            mat = lay.factors[own]
            idx = (pick(rng, gone), l)
            freeze(m, mat, idx)
            lo = logodds_micro(*site_logodds(m, mat, idx)[:2])
            pr = 0 if kind == 'max' else int(round(math.log(prior / (1 - prior)) * 1e6))
            ev.append(dict(op='near', what='prior', tag=tag, a=[lo], b=[pr], tol=8))
    if kind == 'qL':
        res = []
        c = int(rng.integers(0, len(keep[1])))
        for (m, lay), cc in zip(ms, (keep[1][c], c)):
            for p in m.members:
                p.fixed = p is not lay.q
            lay.lbda.fixed = True
            lay.q.fixed_entries = np.ones(lay.q.val.shape, dtype=np.int8)
            lay.q.fixed_entries[0, cc] = 0
            q0 = lay.q.val.copy()
            pr = [0.0] * 6

            def run():
                lay.q.val = q0.copy()
                one_iteration(m)
                return int(lay.q.val[0, cc])
            for p, v in forkrng.paths(run):
                pr[v if 1 <= v <= 5 else 0] += p
            lay.q.val = q0
            res.append(scaled(pr))
        ev.append(dict(op='near', what='threshold', tag=tag, a=res[0], b=res[1], tol=2))
    if kind == 'ibp':
        # the distribution of the feature matrix of the observed rows after one sweep (rows that are
        # missing use features too: compare machines that differ in missing columns only)
        N, D, L = 2, 2, 1
        x = data(rng, (N, D), .2)
        x[:, 1] = 0
        Z, U = pm(rng, N, L), pm(rng, D, L)
        res = []
        for X, u in ((x, U), (x[:, :1].copy(), U[:1])):
            m, d, lay = C16.ibp(X, L, 1e-9)
            lay.lbda.val = math.log(2)
            lay.factors[1].bernoulli_prior = .5
            out = C16.outcomes(m, lay, Z, u)
            zz = {}
            for (z, _), p in out.items():
                k = tuple(sorted(zip(*z))) if z and z[0] else ()
                zz[k] = zz.get(k, 0) + p
            res.append({k: p for k, p in zz.items() if p > 1e-6})
        keys = sorted(set(res[0]) | set(res[1]))
        ev.append(dict(op='near', what='allocation', tag=tag, a=[int(round(res[0].get(k, 0) * 1e6)) for k in keys],
                       b=[int(round(res[1].get(k, 0) * 1e6)) for k in keys], tol=5))
    # the dispersion
    res = []
    for m, lay in ms:
        for p in m.members:
            p.fixed = True
        lay.lbda.fixed = False
        one_iteration(m)
        v = np.atleast_1d(np.asarray(lay.lbda.val, dtype=float))
        res.append([int(round((t if kind == 'max' else expit(t)) * 1e6)) for t in v])
    # equal rates leave a choice to the greedy update
    if kind != 'max':
        ev.append(dict(op='near', what='dispersion', tag=tag, a=res[0], b=res[1], tol=2))
    else:
        ev.append(dict(op='near', what='dispersion', tag=tag, a=sorted(res[0]), b=sorted(res[1]), tol=2))


def expit(v):
    return 1 / (1 + math.exp(-v))


def observe(job, ev):
    rng = rng_for('C23', job['tag'], job['r'], job['seed'])
    np.random.seed(int(rng.integers(0, 2**31)))
    dict(site=site_job, lbda=lbda_job, max=max_job, qL=ql_job, ibp=ibp_job, absent=absent_job)[job['tag']](job, ev, rng)
