"""Displays, progress reports, tables, codings and scalar helpers."""
import re
from common import *


def need(name, where=None):
    f = getattr(where or aux, name, None)
    if f is None:
        raise forkrng.Unsupported('no %s' % name)
    return f


def jobs(tier, seed):
    k = 1 if tier == 'quick' else 20
    return [dict(tag=t, r=r, seed=seed) for t, n in
            (('shown', 60), ('plot', 80), ('printed', 60), ('tables', 40), ('recode', 80), ('lists', 60), ('scalar', 60), ('odds', 60), ('codes', 40), ('pass', 60))
            for r in range(n * k)]


def pick(rng, xs):
    return xs[int(rng.integers(0, len(xs)))]


def displayed(fn):
    """(array in 1e-6, limits of the colours) of the one picture that fn draws"""
    import matplotlib.pyplot as plt
    plt.close('all')
    try:
        quiet(fn)
        ims = [im for n in plt.get_fignums() for a in plt.figure(n).axes for im in a.get_images()]
        if not ims:
            raise forkrng.Unsupported('nothing displayed as an image')
        im = ims[0]
        return scaled(np.ma.getdata(im.get_array())), scaled(list(im.get_clim()))
    finally:
        plt.close('all')


def shown_(job, ev, rng):
    """matrices of machines, before and after inference, free and fixed"""
    N, D, L = (int(v) for v in rng.integers(1, 5, size=3))
    x = data(rng, (N, D), float(rng.choice([0, .2])))
    m, d, lay = build(x, pick(rng, CLANS), L)
    f = pick(rng, [lay.z, lay.u])
    tr = []
    if rng.random() < .8:
        if rng.random() < .2:
            f.fixed = True
        n = int(rng.choice([1, 2, 4, 5, 8]))
        quiet(m.infer, no_samples=n, burn_in_min=int(rng.integers(0, 3)), burn_in_max=3, convergence_window=2)
        if rng.random() < .4:                     # posteriors of any kind, e.g. without a mean below one half
            for g in lay.factors:
                if not g.fixed:
                    g.trace[:] = np.where(rng.random(g.trace.shape) < pick(rng, [.2, .8, .95]), 1, -1)
        tr = ints(f.trace) if not f.fixed else []
    elif rng.random() < .4:
        f.val[:] = pick(rng, [1, -1])
    for tech in ('mean', 'map', 'state', None):
        got, lim = displayed(lambda: f.show() if tech is None else f.show(technique=tech))
        ev.append(dict(op='shown', tag='shown/%s' % (tech or 'default'), tech=tech or 'mean', val=ints(f.val), tr=tr or [ints(f.val)],
                       got=got, lim=lim))


def plot(job, ev, rng):
    shape = tuple(int(v) for v in rng.integers(1, 5, size=2))
    kind = pick(rng, ['pm', 'ones', 'bool', 'prob', 'mean', 'missing'])
    x = dict(pm=pm(rng, *shape), ones=np.ones(shape, dtype=np.int8), bool=rng.random(shape) < .5,
             prob=rng.integers(0, 101, size=shape) / 100., mean=rng.integers(-10, 11, size=shape) / 10.,
             missing=data(rng, shape, .3))[kind]
    if kind in ('mean', 'missing', 'pm') and rng.random() < .8:
        x.flat[0] = -1
    y = x.copy()
    if rng.random() < .6:
        lim = pick(rng, [None, (.25, .75)])
        kw = {} if lim is None else dict(vmin=lim[0], vmax=lim[1])
        if rng.random() < .3:
            kw.update(draw_cbar=False, figsize=(3, 3))
        got, has = displayed(lambda: need('plot_matrix')(y, **kw))
        want = scaled(list(lim or (0, 1)))
    else:
        f = need('plot_matrix_ax')

        def draw():
            import matplotlib.pyplot as plt
            f(y, plt.figure().add_subplot(111))
        got, has = displayed(draw)
        want = scaled([0, 1])
    ev.append(dict(op='plot', tag='plot/' + kind, x=scaled(x), y=scaled(y), got=got, lim=has, want=want))


def printed(job, ev, rng):
    model = pick(rng, CLANS + ['MAX-AND', 'MAX-AND', 'qL-AND', 'OR-AND-IBP'])
    m, d, lay = build(pm(rng, 3, 3), model, int(rng.integers(1, 5)))
    show = need('print_value', lay.lbda)
    if model == 'MAX-AND':
        k = rng.integers(1, 1000, size=lay.size + 1)
        lay.lbda.val = k / 1000.
        p, unit = [[int(v), 1000] for v in k], 1000
        num = [int(round(float(v) * 10)) for v in re.findall(r'-?\d+\.?\d*(?:e-?\d+)?', str(show()))]
    else:
        a, b = (int(v) for v in rng.integers(1, 60, size=2))
        lay.lbda.val = math.log(a / b)
        p, unit = [[a, a + b]], 1000
        num = [int(round(float(v) * 1000)) for v in re.findall(r'-?\d+\.?\d*(?:e-?\d+)?', str(show()))]
    ev.append(dict(op='printed', tag='printed/' + ('max' if model == 'MAX-AND' else 'lom'), p=p, unit=unit, num=num))


def table(t):
    return dict(rows=[int(v) for v in t.index], cols=[str(c) for c in t.columns], v=ints(t.values) if t.size else [[] for _ in t.index])


def tables(job, ev, rng):
    import pandas as pd
    f = need('intersect_dataframes')

    def make():
        rows = rng.permutation(6)[:int(rng.integers(1, 7))]
        cols = rng.permutation(list('abcde'))[:int(rng.integers(1, 6))]
        return pd.DataFrame(rng.integers(0, 90, size=(len(rows), len(cols))), index=rows, columns=cols)
    a, b = make(), make()
    a0, b0 = table(a), table(b)
    if not set(a0['rows']) & set(b0['rows']) or not set(a0['cols']) & set(b0['cols']):
        return
    ra, rb = f(a, b)
    ev.append(dict(op='tables', tag='tables', a=a0, b=b0, ra=table(ra), rb=table(rb), a2=table(a), b2=table(b)))


def recode(job, ev, rng):
    f = need('check_binary_coding')
    shape = tuple(int(v) for v in rng.integers(1, 5, size=2))
    t = pick(rng, [np.int8, np.int64, np.float64, np.uint8, bool, np.int16])
    x = rng.integers(0, 2, size=shape).astype(t)
    if t not in (bool, np.uint8) and rng.random() < .5:
        x = data(rng, shape, .2).astype(t)
        x.flat[-1] = -1
    y = x.copy()
    got = np.asarray(f(y))
    ev.append(dict(op='recode', tag='recode/' + np.dtype(t).name, x=ints(x), y=ints(y), got=ints(got), int8=bool(got.dtype == np.int8)))


def lists(job, ev, rng):
    q = [int(v) for v in rng.integers(0, 6, size=int(rng.integers(1, 12)))]
    f = need('unique_ordered')
    for s in (q, tuple(q), np.array(q)):
        ev.append(dict(op='unique', tag='unique', q=q, got=[int(v) for v in f(s)]))
    g = need('find_centers_of_ordered_list')
    s = sorted(q, reverse=bool(rng.random() < .5))
    for t in (s, np.array(s)):
        ev.append(dict(op='centers', tag='centers', q=s, got=[int(v) for v in g(t)]))


def scalar(job, ev, rng):
    a, b = (int(v) for v in rng.integers(1, 40, size=2))
    array = rng.random() < .5
    v = lambda x: np.array([x, 0.3]) if array else x
    w = lambda y: np.asarray(y, dtype=float).reshape(-1)[0]
    ev.append(dict(op='scalar', tag='expit', f='expit', a=a, b=b, got=scaled(w(need('expit')(v(math.log(a / b)))))))
    ev.append(dict(op='scalar', tag='logit', f='logit', a=a, b=b, got=scaled(math.exp(w(need('logit')(v(a / (a + b))))))))
    q = [int(v) for v in rng.integers(1, 2000, size=int(rng.integers(1, 6)))]
    far = float(rng.choice([0, 0, 800, -800]))
    got = float(need('logsumexp')(np.log(q) + far)) - far
    ev.append(dict(op='scalar', tag='logsumexp', f='logsumexp', q=q, got=int(round(math.exp(got)))))


def codes(job, ev, rng):
    """codes of MAX-AND layers, with the samples of an inference or any others"""
    import matplotlib.pyplot as plt
    import lom._numba.max_machine_sampler as mm
    N, D, L, S = (int(v) for v in rng.integers(1, 5, size=4))
    x = data(rng, (N, D), float(rng.choice([0, .2])))
    x[0, 0] = 1
    m, d, lay = build(x, 'MAX-AND', L)
    for again in range(2):
        quiet(m.infer, no_samples=S, burn_in_min=int(rng.integers(0, 3)), burn_in_max=3, convergence_window=2)
        if rng.random() < .5:
            for g in lay.factors:
                g.trace[:] = np.where(rng.random(g.trace.shape) < pick(rng, [.5, .8]), 1, -1)
            lay.lbda.trace[:] = rng.integers(1, 12, size=lay.lbda.trace.shape) / 12.
        f = pick(rng, list(lay.factors))
        rel = quiet(need('maxmachine_relevance', mm), lay)
        for order in ('relevance', 'lbda'):
            names = ['a%d' % k for k in range(f.val.shape[0])]
            plt.close('all')
            try:
                fig, ax = quiet(need('plot_codes'), f, attributes=names, order=order)
                got = scaled(np.ma.getdata(ax.get_images()[0].get_array()))
                labels = [[int(round(10 * float(v))) for v in re.findall(r'-?\d+\.\d+', l.get_text())] for l in ax.get_yticklabels()]
                shown = [l.get_text() for l in ax.get_xticklabels()]
            finally:
                plt.close('all')
            if any(len(v) != 2 for v in labels):
                raise forkrng.Unsupported('labels of another kind')
            ev.append(dict(op='codes', tag='codes/' + order, z=ints(lay.z.trace), u=ints(lay.u.trace), al=scaled(lay.lbda.trace), f=ints(f.trace),
                           x=ints(x), rel=scaled(rel), lam=scaled(lay.lbda()), order=order, got=got, labels=labels, names=shown, want=names))


def odds(job, ev, rng):
    n, a, b = (int(v) for v in rng.integers(1, 7, size=3))
    e = lambda q: [scaled(math.exp(v)) for v in q]
    tau = pick(rng, [1, 1, 2, 3])
    for N in (n, n + int(rng.integers(1, 5))):
        bp = need('compute_bp')
        got = bp(a / (a + b), n, N) if tau == 1 else bp(a / (a + b), n, N, tau)
        ev.append(dict(op='odds', tag='odds/binomial', f='binomial', n=n, N=N, a=a, b=b, tau=tau, got=e(got)))
    ev.append(dict(op='odds', tag='odds/beta', f='beta', n=n, N=n + 1, a=a, b=b, tau=1, got=e(need('compute_bbp')(n, a, b))))


def pass_(job, ev, rng):
    import lom._numba.max_machine_sampler as mm
    f = need('maxmachine_forward_pass', mm)
    N, D, L = (int(v) for v in rng.integers(1, 5, size=3))
    z, u = rng.integers(0, 2, size=(N, L)).astype(float), rng.integers(0, 2, size=(D, L)).astype(float)
    al = rng.integers(1, 1000, size=L + 1)
    got = f(u, z, al / 1000.)
    ev.append(dict(op='pass', tag='pass', z=ints(z), u=ints(u), al=ints(al), got=scaled(got)))


def observe(job, ev):
    rng = rng_for('C28', job['tag'], job['r'], job['seed'])
    np.random.seed(int(rng.integers(0, 2**31)))
    {'shown': shown_, 'pass': pass_}.get(job['tag'], globals().get(job['tag']))(job, ev, rng)
