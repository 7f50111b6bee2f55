"""Queries and generators leave machines, arguments and other machines alone."""
import copy
from common import *
from sites import *
import lifecycle as lc
import twins
import lom.experiments as ex


def jobs(tier, seed):
    k = 1 if tier == 'quick' else 12
    return ([dict(tag='query', r=r, seed=seed) for r in range(160 * k)] +
            [dict(tag='args', r=r, seed=seed) for r in range(240 * k)] +
            [dict(tag='later', r=r, seed=seed) for r in range(60 * k)] +
            [dict(tag='machines', r=r, seed=seed) for r in range(70 * k)] +
            [dict(tag='layers', r=r, seed=seed) for r in range(70 * k)])


def pick(rng, xs):
    return xs[int(rng.integers(0, len(xs)))]


def a_machine(rng, kind=None):
    kind = kind or pick(rng, lc.KINDS + ['ibp', 'ibp'])
    if kind == 'ibp':
        mc, _, lay = build(data(rng, (int(rng.integers(2, 5)), int(rng.integers(1, 5))), .1), 'OR-AND-IBP', 2)
        lay.alpha = 2.
    else:
        mc = lc.machine_of(kind, rng)
        lc.perturb(mc, rng)
    return kind, mc


def rng_state():
    import zlib
    s = np.random.get_state()
    return [zlib.crc32(np.asarray(s[1]).tobytes()) & 0x7fffffff, int(s[2])]


def state(mc):
    out = twins.projection(mc)
    out['generator'] = rng_state()
    out['convergence'] = [[int(getattr(x, 'trace_index', -1))] for x in mc.members + [l.lbda for l in mc.layers]]
    return twins.small(out)


def queries(mc, rng):
    """(name, thunk) of everything that only asks"""
    out = []
    for li, l in enumerate(mc.layers):
        for t in twins.TECH + ['factor_mean_old', 'no such technique']:
            kw = dict(technique=t)
            if rng.random() < .5:
                kw['noisy_emission'] = bool(rng.random() < .5)
            if rng.random() < .3:
                kw['lazy'] = True
            if rng.random() < .3:
                kw['map_to_probabilities'] = False
            out.append(('output/%s/%s' % (l.model, t), lambda l=l, kw=kw: l.output(**kw)))
        out.append(('layer', lambda l=l: (l.size, l.L, l.dimensionality, repr(l), list(l), l.z, l.u, l.no_samples)))
        out.append(('dispersion', lambda l=l: l.lbda.print_value()))
        out.append(('dispersion mean', lambda l=l: l.lbda.mean()))
        if hasattr(l.lbda, 'trace') and np.ndim(l.lbda.trace) <= 2:
            out.append(('check_convergence', lambda l=l: l.lbda.check_convergence(float(rng.choice([1e-4, .1, 2.])))))
        if l.factors[0].val.shape[1] > 1:
            f = pick(rng, l.factors)
            out.append(('columns', lambda f=f: aux.all_columsn_are_disjoint(f.val)))
        if l.model in CLANS:
            out.append(('generate', lambda l=l: aux.lom_generate_data_fast([f.val for f in l.factors], l.model)))
            out.append(('fuzzy', lambda l=l: aux.lom_generate_data_fast([(f.mean() + 1) / 2 for f in l.factors], l.model, fuzzy=True)))
            out.append(('reference', lambda l=l: aux.lom_generate_data([f.val for f in l.factors], l.model)))
        if l.child.layer is None and l.child.val.ndim == 2:
            out.append(('noise', lambda l=l: aux.add_bernoulli_noise_2d(l.child.val, .5)))
            out.append(('biased noise', lambda l=l: aux.add_bernoulli_noise_2d_biased(l.child.val, .3, .7)))
            out.append(('split', lambda l=l: aux.split_test_train(l.child.val)))
        if l.child.layer is None:
            out.append(('split tensor', lambda l=l: ex.split_train_test(l.child.val, split=.2)))
            out.append(('split old', lambda l=l: ex.split_tensor_train_test_old(l.child.val, split=.2)))
            if l.child.val.ndim == 3:
                out.append(('noise 3D', lambda l=l: aux.add_bernoulli_noise(l.child.val, .5)))
    for m in mc.members:
        out.append(('mean', lambda m=m: m.mean()))
        out.append(('matrix', lambda m=m: (m(), m.model)))
        if m.layer is not None and m.child_axis is not None and m in list(m.layer.factors):
            out.append(('siblings', lambda m=m: m.siblings))
        out.append(('coding', lambda m=m: aux.check_binary_coding(m.val)))
    out.append(('members', lambda: (mc.members, [l for l in mc.layers], mc.lbdas)))
    return out


RANDOM = ('noise', 'biased noise', 'split', 'split tensor', 'split old', 'noise 3D')


def ask(q):
    """a query that refuses is still a query"""
    try:
        return q()
    except (forkrng.TooManyPaths, Timeout, KeyboardInterrupt, MemoryError):
        raise
    except Exception as e:
        return type(e).__name__


def query_job(job, ev, rng):
    kind, mc = a_machine(rng)
    for step in range(2):
        for name, q in queries(mc, rng):
            a = state(mc)
            r1 = ask(q)
            b = state(mc)
            if name in RANDOM:
                a.pop('generator'), b.pop('generator')
            ev.append(dict(op='twin', tag='query/%s/%s' % (kind, name.split('/')[0]), a=a, b=b))
            if name.startswith('output') or name.startswith('mean') or name == 'dispersion mean':
                r1 = np.array(r1, copy=True) if isinstance(r1, np.ndarray) else r1
                r2 = ask(q)
                ev.append(dict(op='twin', tag='repeat/%s/%s' % (kind, name.split('/')[0]),
                               a=twins.small(dict(result=shown(r1))), b=twins.small(dict(result=shown(r2)))))
        if step == 0:
            mc.infer(**twins.random_settings(rng))


def shown(r):
    return r if isinstance(r, str) else twins.nums(r)


def later_job(job, ev, rng):
    """what follows is the same with and without queries in between"""
    kind, mc = a_machine(rng)
    if rng.random() < .7:
        mc.infer(**twins.random_settings(rng))
    other = copy.deepcopy(mc)
    for name, q in queries(mc, rng):
        if rng.random() < .5:
            ask(q)
    kw = twins.random_settings(rng)
    res = []
    seed = int(rng.integers(0, 2**31))
    for k, m in enumerate((mc, other)):
        np.random.seed(seed)
        with twins.poison(17 + 31 * k):
            m.infer(**kw)
        res.append(twins.results(m))
    twins.pair(ev, 'later/%s' % kind, *res)


# ------------------------------------------------------------------- arguments
def layout(rng, a):
    """the same array in another memory layout or type"""
    u = rng.random()
    if u < .2:
        a = np.asfortranarray(a)
    elif u < .4:
        a = np.repeat(a, 2, axis=0)[::2]
    elif u < .6 and a.dtype == np.int8:
        a = a.astype(pick(rng, [np.int64, np.int32]))
    return a


def calls(rng):
    N, D, M, L = (int(v) for v in rng.integers(2, 6, size=4))
    K = int(rng.integers(2, 4))
    dims = [N, D, M][:K]
    f = [layout(rng, pm(rng, n, L)) for n in dims]
    g = [layout(rng, rng.random((n, L))) for n in dims]
    h = [2 * a - 1 for a in g]
    model = pick(rng, ALL36)
    clan = pick(rng, CLANS)
    x2, x3 = layout(rng, data(rng, (N, D), .2)), layout(rng, data(rng, (N, D, M), .2))
    b2, b3 = x2 == 1, x3 == 1
    z3 = [layout(rng, rng.random((n, L)) < .5) for n in (N, D, M)]
    p = float(rng.choice([0, .3, 1]))
    train = np.where(rng.random(x2.shape) < .3, 0, x2)
    pred = rng.random(x2.shape)
    seed = int(rng.integers(0, 1000)) if rng.random() < .5 else None
    small3 = layout(rng, data(rng, (2, 2, 2), .1))
    out = [
        ('lom_generate_data', aux.lom_generate_data, (f, model), {}),
        ('lom_generate_data_fast', aux.lom_generate_data_fast, (f, clan), {}),
        ('lom_generate_data_fast fuzzy', aux.lom_generate_data_fast, (g, clan), dict(fuzzy=True)),
        ('lom_generate_data_general', aux.lom_generate_data_general, (f, model), {}),
        ('lom_generate_data_general fuzzy', aux.lom_generate_data_general, (h, model), dict(fuzzy=True)),
        ('lom_generate_data_fuzzy', aux.lom_generate_data_fuzzy, (h, model), {}),
        ('boolean_tensor_product', aux.boolean_tensor_product, tuple(z3), {}),
        ('add_bernoulli_noise', aux.add_bernoulli_noise, (x3, p), {}),
        ('add_bernoulli_noise bool', aux.add_bernoulli_noise, (b3, p), {}),
        ('add_bernoulli_noise_2d', aux.add_bernoulli_noise_2d, (x2, p), dict(seed=seed)),
        ('add_bernoulli_noise_2d_biased', aux.add_bernoulli_noise_2d_biased, (x2, p, .6), dict(seed=seed)),
        ('split_test_train', aux.split_test_train, (x2,), dict(p=.3)),
        ('split_test_train 01', aux.split_test_train, (b2.astype(np.int8),), dict(p=.3)),
        ('split_train_test', ex.split_train_test, (x3,), dict(split=.3)),
        ('split_train_test balanced', ex.split_train_test, (pm(rng, 5, 6),), dict(split=.2, balanced=True)),
        ('split_tensor_train_test_old', ex.split_tensor_train_test_old, (data(rng, (N, D, M), 0),), dict(split=.3)),
        ('generate_random_tensor', ex.generate_random_tensor, (L, (N, D, M)), dict(noise=p)),
        ('generate_orm_product', aux.generate_orm_product, (4, 5, 2), {}),
        ('check_binary_coding', aux.check_binary_coding, (x2,), {}),
        ('check_binary_coding 01', aux.check_binary_coding, (b2.astype(np.int8),), {}),
        ('check_convergence_single_trace', aux.check_convergence_single_trace, (layout(rng, rng.random(6)), .1), {}),
        ('all_columsn_are_disjoint', aux.all_columsn_are_disjoint, (f[0],), {}),
        ('get_roc_auc', aux.get_roc_auc, (x2, train, pred), {}),
        ('unique_ordered', aux.unique_ordered, ([3, 1, 3, 2],), {}),
        ('logsumexp', aux.logsumexp, (rng.random(4),), {}),
        ('find_centers', aux.find_centers_of_ordered_list, (sorted(rng.integers(0, 3, size=6).tolist()),), {}),
        ('replace_equivalent_model', aux.replace_equivalent_model, (model,), {}),
        ('get_lom_class', aux.get_lom_class, (model,), {}),
    ]
    if rng.random() < .12:
        out += [('tensorm_reconstruct', ex.tensorm_reconstruct, (small3, 1), {}),
                ('tensorm_reconstruct 01', ex.tensorm_reconstruct, ((small3 == 1).astype(np.int8), 1), {})]
    if rng.random() < .12:
        out += [('LOM_predictive', ex.LOM_predictive, ([pm(rng, 3, 3), data(rng, (3, 3), .3), rng.random((3, 3)) < .3,
                                                       model, 1, 0, .1, False],), {})]
    return out


def freeze_args(a):
    if isinstance(a, np.ndarray):
        return [str(a.dtype), twins.nums(a)]
    if isinstance(a, (list, tuple)):
        return [freeze_args(v) for v in a]
    if isinstance(a, float):
        return twins.nums(a)
    return str(a)


def args_job(job, ev, rng):
    for name, fn, a, kw in calls(rng):
        before = freeze_args(a)
        res = None
        try:
            res = fn(*a, **kw)
        except (Timeout, KeyboardInterrupt, MemoryError):
            raise
        except Exception as e:
            pass
        ev.append(dict(op='twin', tag='args/%s' % name, a=twins.small(dict(arguments=before)),
                       b=twins.small(dict(arguments=freeze_args(a)))))
        # what is returned may be changed: arguments and the other results stay
        got = arrays(res)
        kept = [g.copy() for g in got]
        for k, g in enumerate(got):
            if g.size and g.flags.writeable:
                g[...] = 1 - g.reshape(-1)[0] if g.dtype != bool else not g.reshape(-1)[0]
                others = [twins.nums(np.asarray(o, dtype=float)) for j, o in enumerate(kept) if j > k]
                ev.append(dict(op='twin', tag='returned/%s' % name, a=twins.small(dict(arguments=before, others=others)),
                               b=twins.small(dict(arguments=freeze_args(a), others=[
                                   twins.nums(np.asarray(o, dtype=float)) for j, o in enumerate(got) if j > k]))))


def arrays(r):
    if isinstance(r, np.ndarray):
        return [r]
    if isinstance(r, (list, tuple)):
        return [a for v in r for a in arrays(v)]
    return []


# ------------------------------------------------------------ several machines
def machines_job(job, ev, rng):
    X = data(rng, (int(rng.integers(2, 5)), int(rng.integers(2, 5))), .1)
    ref = X.copy()
    ms = []
    models = CLANS + ['NXOR-AND', 'AND-AND', 'NOR-XOR', 'AND-NAND', 'MAX-AND', 'qL-AND', 'OR-NOR', 'NXOR-NXOR', 'OR-AND-IBP']
    for step in range(8):
        who = int(rng.integers(0, len(ms) + 1)) if len(ms) < 4 else int(rng.integers(0, len(ms)))
        before = [twins.small(twins.projection(m)) for m in ms]
        if who == len(ms):
            if rng.random() < .7:                # on the same data
                m, d, lay = build(X, pick(rng, models), int(rng.integers(1, 4)))
                if lay.model == 'OR-AND-IBP':
                    lay.alpha = 2.
            else:
                m = a_machine(rng)[1]
            ms.append(m)
            what = 'new'
        else:
            m = ms[who]
            what = pick(rng, ['infer', 'infer', 'infer', 'settings', 'query', 'clean', 'map', 'layer'])
            if what == 'infer':
                m.infer(**twins.random_settings(rng, m.anneal))
            elif what == 'settings':
                for q in m.members:
                    q.bernoulli_prior = pick(rng, [.2, .5, .8])
                    if q.layer is not None and rng.random() < .5 and (np.abs(q.val) == 1).all():
                        q.val[...] = -q.val
                for l in m.layers:
                    if l.model != 'MAX-AND':
                        l.lbda.val = float(rng.uniform(.1, 2))
                    l.lbda.fixed = bool(rng.random() < .2)
                    l.auto_clean = l.model in CLANS and bool(rng.random() < .4)
            elif what == 'query':
                for l in m.layers:
                    ask(lambda: l.output(technique=pick(rng, twins.TECH)))
            elif what == 'clean':
                l = pick(rng, m.layers)
                if l.model in CLANS + ['MAX-AND']:
                    aux.clean_up_codes(l, reset=bool(rng.random() < .5), clean=True)
            elif what == 'map':
                for l in m.layers:
                    for f in l.factors:
                        if l.model in CLANS:
                            f.set_to_map()
            elif what == 'layer':
                l = m.layers[0]
                if l.model in CLANS and all(not f.parents for f in l.factors):
                    m.add_layer(latent_size=1, child=l.factors[0], model=pick(rng, CLANS))
        for k, (q, b) in enumerate(zip(ms, before)):
            if k != who:
                ev.append(dict(op='twin', tag='machines/%s' % what, a=b, b=twins.small(twins.projection(q))))
        ev.append(dict(op='twin', tag='machines/data/%s' % what, a=dict(data=ints(ref)), b=dict(data=ints(X))))
        if what == 'clean' and any(l.size == 0 for l in ms[who].layers) or what == 'infer' and any(l.size == 0 for l in ms[who].layers):
            ms.pop(who)


# ------------------------------------------------------- layers without a link
def part(mc, ly):
    ms = [ly.child] + list(ly.factors) + ([ly.q] if hasattr(ly, 'q') else [])
    return dict(values=[twins.nums(m.val) for m in ms], masks=[twins.nums(m.fixed_entries) for m in ms],
                samples=[twins.nums(m.trace) if hasattr(m, 'trace') else [] for m in ms],
                flags=[bool(m.fixed) for m in ms] + [bool(ly.lbda.fixed)], model=ly.model, size=int(ly.size),
                dispersion=twins.nums(np.asarray(ly.lbda.val, dtype=float)), options=[bool(ly.auto_clean), bool(ly.auto_reset)],
                priors=[twins.nums(float(m.bernoulli_prior)) for m in ms])


def layers_job(job, ev, rng):
    mc = lom.Machine()
    models = CLANS + ['MAX-AND', 'qL-AND']
    shapes = [tuple(int(v) for v in rng.integers(2, 5, size=2)) for _ in range(2)]
    for s in shapes:
        d = mc.add_matrix(val=data(rng, s, .1), fixed=True)
        ly = mc.add_layer(latent_size=int(rng.integers(1, 4)), child=d, model=pick(rng, models))
        if ly.model != 'MAX-AND':
            ly.lbda.val = float(rng.uniform(.1, 2))
    a, b = mc.layers if rng.random() < .5 else mc.layers[::-1]
    # whatever happens to a, b stays
    for m in [b.child] + list(b.factors) + ([b.q] if hasattr(b, 'q') else []):
        m.fixed = True
        m.fixed_entries = (rng.random(m.val.shape) < .2).astype(np.int8)
    b.lbda.fixed = True
    if a.model in CLANS:
        a.auto_clean = bool(rng.random() < .4)
    before = part(mc, b)
    mc.infer(**twins.random_settings(rng))
    ev.append(dict(op='twin', tag='layers/infer', a=twins.small(before), b=twins.small(part(mc, b))))
    if a.model in CLANS + ['MAX-AND']:
        before = part(mc, b)
        aux.clean_up_codes(a, reset=bool(rng.random() < .5), clean=True)
        ev.append(dict(op='twin', tag='layers/clean', a=twins.small(before), b=twins.small(part(mc, b))))
    if not a.size or a.model == 'qL-AND' and not len(a.factors):
        return
    # the conditional of an entry of a does not depend on the state of b
    mat = pick(rng, list(a.factors))
    if a.model == 'MAX-AND':
        v = rng.permutation(np.arange(1, a.size + 2)) / (a.size + 2.)
        a.lbda.val = np.sort(v)[::-1].copy()
    idx = tuple(int(rng.integers(0, n)) for n in mat.val.shape)
    res = []
    for k in range(2):
        freeze(mc, mat, idx)
        up, dn, same = site_logodds(mc, mat, idx)
        res.append(dict(odds=[logodds_micro(up, dn)], same=bool(same)))
        for f in b.factors:
            f.val = pm(rng, *f.val.shape)
            f.bernoulli_prior = .8
        b.child.val = data(rng, b.child.val.shape, .3)
        b.lbda.val = np.full(b.size + 1, .3) if b.model == 'MAX-AND' else float(rng.uniform(.1, 2))
        b.auto_clean = b.model in CLANS
    ev.append(dict(op='twin', tag='layers/conditional', a=res[0], b=res[1]))


def observe(job, ev):
    rng = rng_for('C22', job['tag'], job['r'], job['seed'])
    np.random.seed(int(rng.integers(0, 2**31)))
    dict(query=query_job, args=args_job, later=later_job, machines=machines_job, layers=layers_job)[job['tag']](job, ev, rng)
