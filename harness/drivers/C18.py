"""Splits into training data and held-out cells."""
from common import *
import lom.experiments as exper

SHARES = [(1, 2), (1, 4), (1, 8), (3, 8), (1, 16)]


def jobs(tier, seed):
    k = 1 if tier == 'quick' else 12
    return ([dict(tag='run', r=r, seed=seed) for r in range(160 * k)] +
            [dict(tag='dist', r=r, seed=seed) for r in range(60 * k)])


def flat(a):
    return ints(np.asarray(a).reshape(-1))


def array(rng, kind):
    nd = 2 if kind == 'all' else int(rng.integers(1, 5))
    shape = tuple(int(v) for v in rng.integers(1, [0, 40, 9, 5, 4][nd], size=nd))
    if kind == 'all' and rng.random() < .4:          # 0/1 coded
        return rng.integers(0, 2, size=shape).astype([np.int8, np.int64, bool, np.uint8][int(rng.integers(0, 4))])
    p = float(rng.choice([.2, .5, .8]))
    x = (2 * (rng.random(shape) < p) - 1).astype(np.int8 if kind == 'old' or rng.random() < .7 else np.int64)
    x[rng.random(shape) < float(rng.choice([0, .2, .6]))] = 0
    return x


def call(kind, x, s):
    if kind == 'all':
        t = aux.split_test_train(x, p=s)
        return t, np.zeros(x.shape, dtype=bool)
    if kind == 'old':
        return exper.split_tensor_train_test_old(x, split=s)
    return exper.split_train_test(x, split=s, balanced=kind == 'balanced')


def feasible(kind, x, num, den):
    y = np.asarray(x).astype(int)
    if kind == 'all' and not (y == -1).any():
        y = 2 * y - 1
    obs = int((y != 0).sum())
    if kind == 'plain':
        return obs > 0 and num * y.size <= den * obs
    if kind == 'old':
        return True
    n = (obs if kind == 'balanced' else y.size) * num // (2 * den)
    return 0 <= n <= min((y == 1).sum(), (y == -1).sum()) and (kind == 'all' or 2 * min((y == 1).sum(), (y == -1).sum()) > n)


def observe(job, ev):
    rng = rng_for('C18', job['tag'], job['r'], job['seed'])
    np.random.seed(int(rng.integers(0, 2**31)))
    if job['tag'] == 'run':
        for kind in ('plain', 'balanced', 'all', 'old'):
            x = array(rng, kind)
            num, den = SHARES[int(rng.integers(0, len(SHARES)))]
            possible = feasible(kind, x, num, den)
            if not possible and kind not in ('balanced', 'all'):
                continue
            orig = x.copy()
            if kind == 'all':
                ev.append(dict(op='recode', tag='recode', x=flat(x), y=flat(aux.check_binary_coding(x)), after=flat(x)))
            try:
                t, mask = call(kind, x, num / den)
            except (ValueError, AssertionError):    # more asked for than there is
                if possible:
                    raise
                continue
            e = dict(op='split', tag=kind, kind=kind, num=num, den=den, shape=list(orig.shape), tshape=list(np.shape(t)),
                     mshape=list(np.shape(mask)), x=flat(orig), after=flat(x) if x.shape == orig.shape and x.dtype == orig.dtype else [],
                     train=flat(t), mask=flat(np.asarray(mask).astype(int)))
            ev.append(e)
            # the caller may go on and change what was returned
            if isinstance(t, np.ndarray) and np.shares_memory(t, x):
                t[...] = 0
                ev.append(dict(e, after=flat(x), tag=kind + '/alias'))
        return
    kind = ['plain', 'balanced'][job['r'] % 2]
    n = int(rng.integers(1, 4 if kind == 'plain' else 7))
    shape = [(n,), (1, n), (n, 1, 1)][int(rng.integers(0, 3))]
    x = pm(rng, *shape)
    x[rng.random(shape) < float(rng.choice([0, .3]))] = 0
    num, den = [(1, 2), (1, 4)][int(rng.integers(0, 2))] if kind == 'plain' else [(1, 2), (3, 4), (1, 1)][int(rng.integers(0, 3))]
    if not feasible(kind, x, num, den):
        return

    def run():
        t, mask = call(kind, x.copy(), num / den)
        return tuple(int(v) + 1 for v in np.nonzero(np.asarray(mask).reshape(-1))[0])
    res = {}
    ps = forkrng.paths(run)
    for p, h in ps:
        res[h] = res.get(h, 0.0) + p
    if len(ps) == 1 and (kind == 'plain' and num * x.size < den * (x != 0).sum() or kind == 'balanced' and (x != 0).sum() > 2):
        raise forkrng.Unsupported('draws not seen')
    ev.append(dict(op='splitd', tag='dist/' + kind, kind=kind, num=num, den=den, x=flat(x),
                   out=[dict(h=list(h), p=int(round(p * 1e5))) for h, p in res.items()]))
