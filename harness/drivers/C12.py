"""Cleaning of latent dimensions: called directly, and automatically during inference."""
from common import *
import lifecycle as lc


def jobs(tier, seed):
    k = 1 if tier == 'quick' else 12
    return ([dict(tag='direct', r=r, seed=seed) for r in range(700 * k)] +
            [dict(tag='auto', r=r, seed=seed) for r in range(500 * k)])


def wanted(rng, mat, axis=1):
    """make some columns inactive or equal to others"""
    L = mat.val.shape[1]
    for l in range(L):
        u = rng.random()
        if u < .15:
            mat.val[:, l] = -1
        elif u < .4:
            mat.val[:, l] = mat.val[:, int(rng.integers(0, L))]


def direct(job, ev, rng):
    K = 2 + (job['r'] % 4 == 3)
    L = WIDTHS[job['r'] % len(WIDTHS)] if job['r'] % 23 == 7 else int(rng.integers(1, 7))
    mc = lom.Machine()
    d = mc.add_matrix(val=pm(rng, *(int(v) for v in rng.integers(1, 6, size=K) + (6 if L > 8 else 0))), fixed=True)
    kind = int(rng.integers(0, 4)) if K == 2 else 0
    model = 'MAX-AND' if kind == 1 else CLANS[int(rng.integers(0, 8))]
    ly = mc.add_layer(latent_size=L, child=d, model=model)
    if kind == 1:
        ly.lbda.val = rng.uniform(.1, .9, size=L + 1)
    if kind == 2:
        def above(f, depth):
            """one or two layers on top of f, and layers on top of their factors"""
            for _ in range(int(rng.choice([1, 1, 2]))):
                q = mc.add_layer(latent_size=int(rng.integers(1, 3)), child=f, model=CLANS[int(rng.integers(0, 8))])
                for g in q.factors:
                    if depth < 2 and rng.random() < .4:
                        above(g, depth + 1)
        for k in ([0], [1], [0, 1])[int(rng.integers(0, 3))]:
            above(ly.factors[k], 0)
    other = mc.add_matrix(val=pm(rng, 2, L), fixed=True)
    for m in mc.members:
        m.fixed_entries = (rng.random(m.val.shape) < .3).astype(np.int8)
    for f in ly.factors:
        if L > 8:               # some pairs that are equal, some that are inactive
            for l in spread(rng, L, 4):
                u = rng.random()
                if u < .3:
                    f.val[:, l] = -1
                elif u < .8:
                    f.val[:, l] = f.val[:, int(rng.integers(0, L))]
        elif rng.random() < .9:
            wanted(rng, f)
    reset = bool(rng.integers(0, 2))

    foll = lc.following(ly)
    away = [m for q in mc.layers if q is not ly for m in q.factors if not any(m is f for f in foll)]

    def snap():
        return dict(fs=[lc.rows(f.val) for f in ly.factors], mk=[lc.rows(f.fixed_entries) for f in ly.factors],
                    rs=[lc.rows(m.val) for m in foll], rm=[lc.rows(m.fixed_entries) for m in foll],
                    lm=lc.lam_ints(ly.lbda.val))

    def rest():
        return [d.val.copy(), d.fixed_entries.copy(), other.val.copy(), other.fixed_entries.copy()] + \
            [x for m in away for x in (m.val.copy(), m.fixed_entries.copy())] + \
            [np.array(q.lbda.val) for q in mc.layers if q is not ly]
    a, ra = snap(), rest()
    ret = aux.clean_up_codes(ly, reset=reset, clean=not reset)
    b, rb = snap(), rest()
    ev.append(dict(op='clean', tag='direct/%dD/%s' % (K, 'reset' if reset else 'remove'), reset=reset,
                   vec=ly.model == 'MAX-AND', ret=bool(ret),
                   other=all(np.array_equal(x, y) for x, y in zip(ra, rb)),
                   **a, **{k + '2': v for k, v in b.items()}))


def auto(job, ev, rng):
    kind = ['2D', '3D', 'max', 'deep', 'two', 'chain', 'qL', 'deep2', 'net', 'tree'][job['r'] % 10]
    mc = lc.machine_of(kind, rng, L=int(rng.integers(2, 6)))
    lc.perturb(mc, rng, pfix=.08, pmask=.3)
    for ly in mc.layers:
        if ly.model != 'MAX-AND' and rng.random() < .7:
            ly.lbda.val = float(rng.uniform(.01, .3))
    for m in mc.members:
        if m.layer is not None and m.val.ndim == 2 and rng.random() < .4 and m is not getattr(m.layer, 'q', None):
            wanted(rng, m)
    # layers some of whose rows follow another cleaned layer are not cleaned themselves
    for ly in reversed(mc.layers):
        u = rng.random()
        if ly.model == 'qL-AND' and u < .3:
            continue
        if any(q is not ly and (q.auto_clean or q.auto_reset) and
               (any(f is m for f in ly.factors for m in lc.following(q)) or any(f is m for f in q.factors for m in lc.following(ly)))
               for q in mc.layers):
            continue
        if u < .45:
            ly.auto_clean = True
        elif u < .8:
            ly.auto_reset = True
    for run in range(1 + job['r'] % 2):
        lc.record(mc, ev, tag='auto/%s/run%d' % (kind, run + 1), n=int(rng.integers(0, 3)), W=int(rng.choice([2, 3, 4])),
                  eps=float(rng.choice([1.3e-4, .0317, 1.5, 1.5])), bmin=int(rng.choice([0, 1, 3])),
                  bmax=int(rng.choice([0, 3, 8, 15])), fix=0)


def observe(job, ev):
    rng = rng_for('C12', job['tag'], job['r'], job['seed'])
    np.random.seed(int(rng.integers(0, 2**31)))
    dict(direct=direct, auto=auto)[job['tag']](job, ev, rng)
