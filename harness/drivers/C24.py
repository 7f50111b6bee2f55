"""Predictive accuracy, grid search, area under the curve, tensor reconstruction."""
import multiprocessing
from common import *
import twins
import lom.experiments as ex

SAMPLES = 10


def jobs(tier, seed):
    k = 1 if tier == 'quick' else 15
    return ([dict(tag='grid', r=r, seed=seed) for r in range(8 * (1 if tier == 'quick' else 6))] +
            [dict(tag='acc', r=r, seed=seed) for r in range(216 * k)] +
            [dict(tag='blind', r=r, seed=seed) for r in range(40 * k)] +
            [dict(tag='recon', r=r, seed=seed) for r in range(60 * k)] +
            [dict(tag='auc', r=r, seed=seed) for r in range(120 * k)])


def pick(rng, xs):
    return xs[int(rng.integers(0, len(xs)))]


def structured(rng, model, shape, L, noise):
    fs = [(2 * (rng.random((n, L)) < rng.choice([.4, .6])) - 1).astype(np.int8) for n in shape]
    x = np.asarray(aux.lom_generate_data_general(fs, model)).astype(np.int8)
    return np.where(rng.random(shape) < noise, -x, x).astype(np.int8)


def flags(model):
    """how the library represents a model"""
    m, d, lay = build(np.ones((2, 2), dtype=np.int8), model, 1)
    return bool(lay.invert_factors)


def means(fs, B=SAMPLES):
    """factor means as multiples of 1 / B of probability one"""
    return [np.round((np.asarray(f, dtype=float) + 1) / 2 * B).astype(int).tolist() for f in fs]


def acc_event(tag, x, mask, asked, res, fs):
    acc, named, L = res[0], res[1], int(res[2])
    n = int(mask.sum())
    c = acc * n if n else 0.0
    return dict(op='acc', tag=tag, **op(asked), invf=flags(asked), asked=asked, named=str(named), L=L, B=SAMPLES,
                f=means(fs), x=ints(x), mask=mask.astype(int).tolist(), n=n, c=int(round(c)) if c == c else -1,
                exact=bool(c == c and abs(c - round(c)) < 1e-6))


def split(rng, x, p):
    mask = (rng.random(x.shape) < p) & (x != 0)
    train = x.copy()
    train[mask] = 0
    return train, mask


def flat(x):
    return [int(v) for v in np.asarray(x).reshape(-1)]


class Runs:
    """the inferences made meanwhile: settings at their start, samples after them"""
    def __enter__(self):
        self.old = lom.Machine.infer
        self.runs = runs = []

        def infer(m, *a, **k):
            e = dict(data=[flat(l.child()) for l in m.layers], L=[int(l.size) for l in m.layers],
                     lam=[int(v) for l in m.layers for v in np.round(np.atleast_1d(l.lbda()) * 1e6)],
                     inv=[bool(l.invert_data) for l in m.layers], anneal=bool(m.anneal))
            r = self.old(m, *a, **k)
            e['samples'] = [len(x.trace) for x in m.members + m.lbdas if not x.fixed]
            runs.append(e)
            return r
        lom.Machine.infer = infer
        return self

    def __exit__(self, *a):
        lom.Machine.infer = self.old


def ran(tag, r, x, L, lam, anneal):
    return dict(op='ran', tag=tag + '/settings', x=flat(x), L=L, lam=-1 if lam is None else int(round(lam * 1e6)), anneal=anneal, runs=r.runs)


def acc(job, ev, rng):
    model = ALL36[job['r'] % 36]
    K = 2 + int(rng.random() < .3)
    shape = tuple(int(v) for v in rng.integers(2, 7 if K == 2 else 4, size=K))
    L = int(rng.integers(1, 4 if K == 2 else 3))
    x = structured(rng, model, shape, int(rng.integers(1, 3)), .05)
    if rng.random() < .3:
        x[rng.random(shape) < .2] = 0
    train, mask = split(rng, x, float(rng.choice([.1, .3, .6])))
    if not mask.any():
        mask[np.unravel_index(0, shape)] = x.flat[0] != 0
        if not mask.any():
            return
    anneal = bool(rng.random() < .15)
    lam = float(rng.choice([.05, .5, 2.]))
    with Runs() as r:
        first = ex.LOM_predictive([x, train, mask, model, L, 0, lam, anneal])
    ev.append(ran('acc', r, train, L, lam, anneal))
    ev.append(acc_event('acc/%dD' % K, x, mask, model, first[0], first[1]))
    np.random.seed(5)
    a = ex.LOM_predictive([x, train, mask, model, L, 0, lam, False])
    np.random.seed(5)
    b = ex.LOM_predictive([x, train, mask, model, L, 0, lam, False], return_machine=False)
    ev.append(dict(op='twin', tag='acc/short', a=dict(result=shown(a[0])), b=dict(result=shown(b))))


def shown(r):
    return [twins.nums(float(r[0])) if r[0] == r[0] else 'nan', str(r[1]), int(r[2])]


def blind(job, ev, rng):
    """held-out values are not available to inference, training values not to evaluation"""
    model = pick(rng, ALL36)
    shape = tuple(int(v) for v in rng.integers(2, 6, size=2))
    x = structured(rng, model, shape, 2, .05)
    train, mask = split(rng, x, .4)
    y = np.where(mask, x, -x).astype(np.int8)          # other training values in the full data
    z = np.where(mask, -x, x).astype(np.int8)          # other held-out values
    if not mask.any():
        return
    res = []
    for full in (x, y, z):
        np.random.seed(9)
        r = ex.LOM_predictive([full, train, mask, model, 2, 0, .5, False])
        res.append(dict(means=[twins.nums(f) for f in r[1]], accuracy=int(round(float(r[0][0]) * mask.sum()))))
    ev.append(dict(op='twin', tag='blind/training', a=res[0], b=res[1]))
    ev.append(dict(op='twin', tag='blind/held-out', a=dict(means=res[0]['means'], accuracy=res[0]['accuracy']),
                   b=dict(means=res[2]['means'], accuracy=int(mask.sum()) - res[2]['accuracy'])))


class Serial:
    """stands in for a pool of processes"""
    def __init__(self, *a, **k):
        pass

    def map(self, f, xs, *a, **k):
        return [f(x) for x in xs]

    def imap(self, f, xs, *a, **k):
        return iter(self.map(f, xs))

    imap_unordered = imap

    def starmap(self, f, xs, *a, **k):
        return [f(*x) for x in xs]

    def close(self):
        pass

    join = terminate = close

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass


def grid(job, ev, rng):
    multiprocessing.current_process()._config['daemon'] = False      # the grid starts processes of its own
    models = [pick(rng, ALL36) for _ in range(int(rng.integers(1, 4)))]
    if job['r'] % 4 == 3:
        models = None
    Ls = [1, 2, 3][:int(rng.integers(1, 4))] if models else [1, 2]
    idxs = pick(rng, [[0], [0, 1], [3, 1, 4]])
    K = 3 if job['r'] % 3 == 2 else 2
    shape = tuple(int(v) for v in rng.integers(4, 7 if K == 2 else 5, size=K))
    if K == 3:
        Ls = [v for v in Ls if v < 3]
    x = structured(rng, (models or ['OR-AND'])[0], shape, 2, .05)
    if rng.random() < .3:
        x[rng.random(shape) < .1] = 0
    few = job['r'] % 8 == 2             # hardly any ones: a balanced split is not possible at first
    if few:
        K, models, Ls, idxs = 2, [pick(rng, CLANS)], [1], [0]
        x = -np.ones((20, 30), dtype=np.int8)
        x.reshape(-1)[rng.choice(600, size=int(rng.integers(7, 14)), replace=False)] = 1
    before = x.copy()
    seen = []
    old = getattr(ex, 'split_train_test', None)

    def watch(*a, **k):
        r = old(*a, **k)
        seen.append(r)
        return r
    if old is not None:
        ex.split_train_test = watch
    serial = job['r'] % 8 in (1, 2, 4)           # all in this process, where it can be watched
    pool = multiprocessing.Pool
    if serial:
        multiprocessing.Pool = Serial
    lam = pick(rng, [.5, .05, 1.5])
    anneal = bool(job['r'] % 2)
    try:
        kw = dict(L_inits=Ls, random_idxs=idxs, anneal=anneal, lbda_init=lam,
                  balanced=few or bool(K == 2 and rng.random() < .3))
        if models is not None:
            kw['machines'] = models
        with Runs() as r:
            table, factors = ex.LOM_hyperparms_parallel_gridsearch(x, **kw)
    finally:
        multiprocessing.Pool = pool
        if old is not None:
            ex.split_train_test = old
    asked = models if models is not None else aux.canonical_loms()
    rows = [tuple(r) for r in table[['test accuracy', 'LOM', 'L']].itertuples(index=False)]
    ev.append(dict(op='grid', tag='grid', asked=[[m, L] for m in asked for L in Ls for _ in idxs],
                   done=[[str(r[1]), int(r[2])] for r in rows], factors=len(factors)))
    ev.append(dict(op='twin', tag='grid/data', a=dict(data=ints(before)), b=dict(data=ints(x))))
    if not seen:
        ev.append(dict(op='skip', what='split not observed'))
        return
    if serial and r.runs:
        ev.append(dict(op='grid', tag='grid/runs', asked=[['any', L] for m in asked for L in Ls for _ in idxs],
                       done=[['any', e['L'][0]] for e in r.runs], factors=len(r.runs)))
        for e in r.runs:
            one = Runs()
            one.runs = [e]
            ev.append(ran('grid', one, seen[-1][0], e['L'][0], lam, anneal))
    mask = np.asarray(seen[-1][1])
    if kw['balanced']:
        ev.append(dict(op='twin', tag='grid/balanced', a=dict(held_out=int((x[mask] == 1).sum())),
                       b=dict(held_out=int((x[mask] == -1).sum()))))
    for r, fs in zip(rows, factors):
        ev.append(acc_event('grid/row', x, mask, str(r[1]), r, fs))


def recon(job, ev, rng):
    shape = tuple(int(v) for v in rng.integers(2, 4, size=3))
    L = int(rng.integers(1, 4))
    x = structured(rng, 'OR-AND', shape, int(rng.integers(1, 3)), .1)
    miss = rng.random() < .2
    if miss:
        x[rng.random(shape) < .2] = 0
    res = []
    variants = [x, x.astype(np.int64), x.astype(float)]
    if not miss:
        b = x == 1
        variants += [b, b.astype(np.int8), b.astype(np.int64), b.astype(float), b.astype(np.uint8)]
    for v in [variants[0]] + [variants[int(rng.integers(1, len(variants)))] for _ in range(2)]:
        np.random.seed(3)
        with Runs() as r:
            y, fs, plug = ex.tensorm_reconstruct(v, L)
        ev.append(ran('recon', r, x, L, None, False))
        res.append(dict(mean=twins.nums(y), plug=twins.nums(plug), factors=[twins.nums(f) for f in fs]))
        if len(res) == 1:
            ev.append(dict(op='recon', tag='recon', o='OR', i='AND', B=50, f=means(fs, 50), w=scaled(y), plug=ints(plug)))
        else:
            ev.append(dict(op='twin', tag='recon/%s' % v.dtype, a=twins.small(res[0]), b=twins.small(res[-1])))
    np.random.seed(3)
    lay = ex.tensorm_reconstruct(x, L, return_layer=True)
    own = dict(mean=twins.nums(lay.output(technique='factor_mean')), plug=twins.nums(lay.output(technique='factor_map')),
               factors=[twins.nums(f.mean()) for f in lay.factors])
    ev.append(dict(op='twin', tag='recon/layer', a=twins.small(res[0]), b=twins.small(own)))


def auc(job, ev, rng):
    shape = tuple(int(v) for v in rng.integers(2, 7, size=2))
    x = data(rng, shape, float(rng.choice([0, .2])))
    train, mask = split(rng, x, .5)
    v = rng.integers(0, int(rng.choice([3, 20])), size=shape)
    if len(set(x[mask].tolist())) < 2:
        return
    if rng.random() < .3:
        v[x != 0] = (v * (x == 1) + (x == 1))[x != 0]
    a = aux.get_roc_auc(x, train, v / 20.)
    ev.append(dict(op='auc', tag='auc', x=ints(x), train=ints(train), v=ints(v), auc=scaled(a)))


def observe(job, ev):
    rng = rng_for('C24', job['tag'], job['r'], job['seed'])
    np.random.seed(int(rng.integers(0, 2**31)))
    dict(acc=acc, blind=blind, grid=grid, recon=recon, auc=auc)[job['tag']](job, ev, rng)
