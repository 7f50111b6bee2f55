"""OR-AND-IBP: exact distribution of row updates, sweeps and records of whole inferences, outputs."""
from common import *
import lifecycle as lc
from drivers.C13 import TECH

ODDS = [(1, 1), (2, 1), (1, 2)]


def jobs(tier, seed):
    k = 1 if tier == 'quick' else 10
    return ([dict(tag='shared', r=r, seed=seed) for r in range(70 * k)] +
            [dict(tag='new', r=r, seed=seed) for r in range(40 * k)] +
            [dict(tag='run', r=r, seed=seed) for r in range(90 * k)] +
            [dict(tag='many', r=r, seed=seed) for r in range(8 * k)] +
            [dict(tag='rows', r=r, seed=seed) for r in range(6 * k)] +
            [dict(tag='run', wide=1, r=r, seed=seed) for r in range(8 * k)])


def pick(rng, xs):
    return xs[int(rng.integers(0, len(xs)))]


def ibp(x, L, alpha):
    m, d, lay = build(x, 'OR-AND-IBP', L)
    lay.alpha = alpha
    return m, d, lay


def used(m, d, lay, rng, alpha):
    """some machines have run before, with other settings and other data"""
    if rng.random() < .6:
        return
    x = d.val
    lay.alpha = float(rng.choice([.3, 1.5, 4]))
    lay.lbda.val = float(rng.uniform(.1, 3))
    lay.factors[1].bernoulli_prior = float(rng.choice([.2, .5, .9]))
    d.val = pm(rng, *x.shape)
    m.infer(no_samples=1, burn_in_min=1, burn_in_max=2, convergence_window=2)
    d.val, lay.alpha = x, alpha


def outcomes(m, lay, Z, U, prune=0.0):
    """distribution of (Z, U) after one sweep over Z"""
    lay.factors[1].fixed = True
    lay.lbda.fixed = True

    def run():
        lay.factors[0].val = Z.copy()
        lay.factors[1].val = U.copy()
        for f in lay.factors:
            f.fixed_entries = np.zeros(f.val.shape, dtype=np.int8)
        one_iteration(m)
        return (tuple(map(tuple, np.array(lay.factors[0].val).tolist())),
                tuple(map(tuple, np.array(lay.factors[1].val).tolist())))
    res = {}
    for p, o in forkrng.paths(run, prune=prune):
        res[o] = res.get(o, 0.0) + p
    return res


def sweeps(ev, tag, Z, U, res, rng, n=6):
    keys = list(res)
    for i in rng.permutation(len(keys))[:n]:
        z, u = keys[i]
        ev.append(dict(op='sweep', tag=tag + '/sweep', Z=ints(Z), U=ints(U), Z2=[list(r) for r in z], U2=[list(r) for r in u]))


def emit(ev, tag, N, b, q, a, x, groups, new, lim):
    """groups: pre-state -> {(z, nu): p}"""
    todo = sorted(groups.items(), key=lambda g: -sum(g[1].values()))[:lim]
    for (us, ms, z0, sg), out in todo:
        tot = sum(out.values())
        if tot < 1e-7:
            continue
        ev.append(dict(op='row', tag=tag, N=N, b=b, q=list(q), a=list(a), x=ints(x), new=new,
                       us=[list(c) for c in us], m=list(ms), z0=list(z0), sg=[list(c) for c in sg],
                       out=[dict(z=list(z), nu=[list(c) for c in nu], p=int(round(p / tot * 1e5)))
                            for (z, nu), p in out.items()]))


def col(a, l):
    return tuple(int(r[l]) for r in a)


def shared(job, ev, rng):
    """no new dimensions (vanishing concentration): redrawing the shared ones, last row"""
    N = int(rng.integers(2, 5))
    D = int(rng.integers(1, 4))
    L = int(rng.integers(1, min(3, 2 ** D) + 1))
    b, q = pick(rng, [2, 3]), pick(rng, ODDS)
    x = data(rng, (N, D), float(rng.choice([0, .3])))
    m, d, lay = ibp(x, L, 1e-9)
    used(m, d, lay, rng, 1e-9)
    lay.lbda.val = math.log(b)
    lay.factors[1].bernoulli_prior = q[0] / (q[0] + q[1])
    while True:
        U = pm(rng, D, L)
        if len({col(U, l) for l in range(L)}) == L:
            break
    Z = pm(rng, N, L)
    res = outcomes(m, lay, Z, U, prune=1e-6)
    orig = [tuple(int(v) for v in U[:, l]) for l in range(L)]
    groups = {}
    for (z, u), p in res.items():
        W = len(z[0]) if z else 0
        cols = [col(u, j) for j in range(W)]
        if any(c not in orig for c in cols) or len(set(cols)) != W:
            ev.append(dict(op='sweep', tag='shared/sweep', Z=ints(Z), U=ints(U), Z2=[list(r) for r in z], U2=[list(r) for r in u]))
            continue
        idx = [orig.index(c) for c in cols]
        # dimensions in use by this row alone, dropped in its update
        sg = tuple(orig[l] for l in range(L) if l not in idx and Z[N - 1, l] == 1)
        ms = tuple(sum(1 for n in range(N - 1) if z[n][j] == 1) for j in range(W))
        key = (tuple(cols), ms, tuple(int(Z[N - 1, l]) for l in idx), sg)
        g = groups.setdefault(key + (tuple(r for r in z[:-1]),), {})
        o = (tuple(z[-1]), ())
        g[o] = g.get(o, 0.0) + p
    merged = {}
    for key, g in groups.items():      # same sufficient state, different other rows: one observation each
        merged[key] = g
    todo = sorted(merged.items(), key=lambda t: -sum(t[1].values()))[:6]
    emit(ev, 'shared', N, b, q, (1, 1), x[N - 1], {k[:4]: g for k, g in todo}, False, 6)
    sweeps(ev, 'shared', Z, U, res, rng)


def new(job, ev, rng):
    """no dimension in use at first: new ones, and redrawing those of the first row"""
    N = pick(rng, [1, 1, 2])
    D = int(rng.integers(1, 4)) if N == 1 else int(rng.integers(1, 3))
    L = int(rng.integers(1, 3))
    b, q = pick(rng, [2, 3]), pick(rng, ODDS)
    a = pick(rng, [(1, 1), (1, 2), (2, 1), (3, 2)])
    x = data(rng, (N, D), float(rng.choice([0, .3])))
    if D == 3:
        b, q = 2, (1, 1)
    m, d, lay = ibp(x, L, N * a[0] / a[1])
    used(m, d, lay, rng, N * a[0] / a[1])
    lay.lbda.val = math.log(b)
    lay.factors[1].bernoulli_prior = q[0] / (q[0] + q[1])
    Z = pm(rng, N, L) if N == 1 else -np.ones((N, L), dtype=np.int8)
    U = pm(rng, D, L)
    res = outcomes(m, lay, Z, U)
    groups = {}
    for (z, u), p in res.items():
        W = len(z[0])
        sh = [j for j in range(W) if N == 2 and z[0][j] == 1]
        nw = [j for j in range(W) if j not in sh]
        key = (tuple(col(u, j) for j in sh), (1,) * len(sh), (-1,) * len(sh), ())
        g = groups.setdefault(key, {})
        o = (tuple(z[-1][j] for j in sh), tuple(col(u, j) for j in nw))
        g[o] = g.get(o, 0.0) + p
    emit(ev, 'new/N%d' % N, N, b, q, a, x[N - 1], groups, True, 7)
    if N == 2:                        # the first row's own update
        g = {}
        for (z, u), p in res.items():
            sh = [j for j in range(len(z[0])) if z[0][j] == 1]
            o = ((), tuple(col(u, j) for j in sh))
            g[o] = g.get(o, 0.0) + p
        emit(ev, 'new/first', N, b, q, a, x[0], {((), (), (), ()): g}, True, 1)
    sweeps(ev, 'new', Z, U, res, rng)


def many(job, ev, rng):
    """many dimensions, each needed by a cell of its own: the number of new ones"""
    L = [9, 12, 17, 33, 10, 24, 65, 129][job['r'] % 8]
    a = pick(rng, [(1, 1), (1, 2), (2, 1), (3, 2)])
    x = np.ones((2, L), dtype=np.int8)
    m, d, lay = ibp(x, L, 2 * a[0] / a[1])
    lay.lbda.val = 25.
    lay.factors[1].bernoulli_prior = 1 - 1e-9
    Z, U = np.ones((2, L), dtype=np.int8), (2 * np.eye(L, dtype=np.int8) - 1).astype(np.int8)
    perm = rng.permutation(L)
    res = outcomes(m, lay, Z, U[:, perm], prune=1e-6)
    counts, kept = {}, True
    for (z, u), p in res.items():
        z, u = np.array(z), np.array(u)
        kept = kept and z.shape[1] >= L and np.array_equal(u[:, :L], U[:, perm]) and bool((z[:, :L] == 1).all())
        k1 = int((z[0, L:] == 1).sum())
        k = (k1, z.shape[1] - L - k1)
        counts[k] = counts.get(k, 0.0) + p
    for k in counts:
        if not (0 <= k[0] <= 2 and 0 <= k[1] <= 2):
            kept = False
    for first in (0, 1, 2):
        g = [counts.get((first, j), 0.0) for j in range(3)]
        if sum(g) > 1e-4:
            ev.append(dict(op='count', tag='many/second', a=list(a), kept=bool(kept), L=L, p=[int(round(v / sum(g) * 1e5)) for v in g]))
    g = [sum(v for k, v in counts.items() if k[0] == j) for j in range(3)]
    ev.append(dict(op='count', tag='many/first', a=list(a), kept=bool(kept), L=L, p=[int(round(v * 1e5)) for v in g]))


def rows(job, ev, rng):
    """many rows, decided by their data but for the last: weight of a dimension used by many"""
    N = [40, 129, 257, 300, 65, 18][job['r'] % 6]
    L = int(rng.integers(1, 3))
    x = np.ones((N, L), dtype=np.int8)
    x[rng.random(x.shape) < rng.choice([.1, .5, .9])] = -1
    x[0], x[-1] = 1, 0
    Z = x.copy()
    Z[-1] = pm(rng, L)
    U = (2 * np.eye(L, dtype=np.int8) - 1).astype(np.int8)
    m, d, lay = ibp(x, L, 1e-9)
    lay.lbda.val = 25.
    g = {}
    for (z, u), p in outcomes(m, lay, Z, U, prune=1e-6).items():
        ok = np.array_equal(u, U) and np.array_equal(np.array(z)[:-1], x[:-1])
        o = (tuple(z[-1]) if ok else (), ())
        g[o] = g.get(o, 0.0) + p
    key = (tuple(col(U, j) for j in range(L)), tuple(int((x[:-1, j] == 1).sum()) for j in range(L)), tuple(int(v) for v in Z[-1]), ())
    emit(ev, 'rows', N, 2, (1, 1), (1, 1), x[-1], {key: g}, False, 1)


class Watch(lc.Recorder):
    """records (Z, U) after every update of the two factors"""
    def update(self, kind, i):
        if kind == 'val':
            self.seen.append((i, lc.rows(self.members[0].val), lc.rows(self.members[1].val), masks(self.members[:2])))


def masks(fs):
    return [lc.rows(f.fixed_entries) for f in fs]


def run(job, ev, rng):
    N, D = int(rng.integers(2, 7)), int(rng.integers(1, 6))
    x = data(rng, (N, D), float(rng.choice([0, .2])))
    L, alpha = int(rng.integers(1, 5)), pick(rng, [None, .5, 2., 6.])
    if 'wide' in job:           # many features
        N, D = int(rng.integers(6, 9)), int(rng.integers(5, 20))
        x, L, alpha = data(rng, (N, D), .3), int(rng.integers(10, 34)), 20.
    m, d, lay = ibp(x, L, alpha)
    for again in range(1 + job['r'] % 2):
        if rng.random() < .3:
            lay.lbda.fixed = True
            lay.lbda.val = float(rng.uniform(.2, 2))
        n = int(rng.choice([1, 2, 3, 3]))
        # single entries may be fixed: of the features, and (without effect) of the allocation
        if rng.random() < .7:
            for f in lay.factors:
                f.fixed_entries = np.array(rng.random(f.val.shape) < .3, dtype=np.int8)
        w = Watch(m)
        w.seen, w.live, w.W = [], True, 2
        w.sync = lambda skip=None: None
        start = (lc.rows(lay.factors[0].val), lc.rows(lay.factors[1].val), masks(lay.factors))
        w.attach()
        try:
            with w.factories():
                m.infer(no_samples=n, burn_in_min=int(rng.integers(0, 4)), burn_in_max=int(rng.integers(0, 6)),
                        convergence_window=2)
        finally:
            w.live = False
            w.detach()
        if len(w.seen) < 2 * n:
            raise forkrng.Unsupported('updates not observed')
        prev = start
        for i, z, u, f in w.seen:
            ev.append(dict(op='sweep' if i == 0 else 'u', tag='run/' + 'ZU'[i], Z=prev[0], U=prev[1], Z2=z, U2=u,
                           F=prev[2], F2=f))
            prev = (z, u, f)
        ends = w.seen[1::2][-n:]
        tz, tu = ints(lay.factors[0].trace), ints(lay.factors[1].trace)
        ev.append(dict(op='trace', tag='run/trace', Zs=[s[1] for s in ends], Us=[s[2] for s in ends], tz=tz, tu=tu))
        if len(tz) != n or len(tu) != n:
            continue
        W = len(tz[0][0])
        ltr = [float(lay.lbda.val)] if lay.lbda.fixed else [float(v) for v in lay.lbda.trace]
        s = int(round(1e5 / (1 + math.exp(-sum(ltr) / len(ltr)))))
        for tech in TECH:
            if tech[:11] == 'factor_mean' and (n ** (2 * W) > 20000 or W > 7) or tech == 'point_estimate' and not lay.size:
                continue
            den = {'point_estimate': 1, 'factor_map': 1, 'mc': n}.get(tech, n ** (2 * W))
            noisy = bool(rng.random() < .3) and den <= 5000
            out = np.asarray(lay.output(technique=tech, noisy_emission=noisy), dtype=float)
            wgt = out * den
            e = dict(op='out', tag='run/' + tech, **op('OR-AND'), tech=tech, noisy=noisy, mapped=True, s=s,
                     cur=[ints(f.val) for f in lay.factors], tr=[tz, tu], den=den, w=scaled(wgt, 1))
            if noisy:
                e.update(v=scaled(out, 100000))
            else:
                e.update(r=scaled(np.abs(wgt - np.round(wgt)), 1e5))
            if W:
                ev.append(e)


def observe(job, ev):
    rng = rng_for('C16', job['tag'], job['r'], job['seed'])
    np.random.seed(int(rng.integers(0, 2**31)))
    dict(shared=shared, new=new, run=run, many=many, rows=rows)[job['tag']](job, ev, rng)
