"""Copies of machines, and everything that can be observed of one."""
from common import *
import lifecycle as lc

NANO = 1000000000
TECH = ['point_estimate', 'factor_map', 'factor_mean', 'mc']


def nums(v):
    """array(s) as nested ints: exact for integers, rounded to 1e-9 otherwise, as <<high, low>>"""
    a = np.asarray(v)
    if a.dtype.kind in 'iub':
        return [list(a.shape), a.astype(int).reshape(-1).tolist()]
    a = a.astype(float).reshape(-1)
    out = []
    for x in a:
        if not np.isfinite(x):
            out += [2000000000, 1 if x > 0 else -1 if x < 0 else 0]
            continue
        m, e = math.frexp(x)
        m = int(m * 2**53)
        out += [e, m >> 27, m & ((1 << 27) - 1)]
    return [list(np.shape(v)), out]


def projection(mc, traces=True):
    """the state of a machine as far as a user can see it"""
    out = dict(matrices=[nums(m.val) for m in mc.members],
               masks=[nums(m.fixed_entries) for m in mc.members],
               flags=[bool(m.fixed) for m in mc.members] + [bool(p.fixed) for p in mc.lbdas],
               priors=[nums(float(m.bernoulli_prior)) for m in mc.members] + [nums(np.array(p.beta_prior, dtype=float)) for p in mc.lbdas],
               dispersion=[nums(np.asarray(p.val, dtype=float)) for p in mc.lbdas],
               models=[l.model for l in mc.layers], sizes=[int(l.size) for l in mc.layers],
               options=[bool(mc.anneal)] + [[bool(l.auto_clean), bool(l.auto_reset)] for l in mc.layers],
               structure=[[mc_index(mc, l.child)] + [mc_index(mc, f) for f in l.factors] for l in mc.layers],
               hyper=[[nums(float(getattr(l, a))) if getattr(l, a, None) is not None else [] for a in ('alpha', 'gamma')] for l in mc.layers])
    if traces:
        out['samples'] = [nums(m.trace) if hasattr(m, 'trace') else [] for m in mc.members]
        out['dispersion_samples'] = [nums(np.asarray(p.trace)) if hasattr(p, 'trace') else [] for p in mc.lbdas]
    return out


def mc_index(mc, m):
    for i, q in enumerate(mc.members):
        if q is m:
            return i + 1
    return 0


def results(mc, rng_seed=None):
    """projection after an inference, with means and outputs"""
    out = projection(mc)
    out['burn_in'] = int(getattr(mc, 'burn_in_iters', -1))
    out['means'] = [nums(np.asarray(m.mean(), dtype=float)) for m in mc.members]
    outs = []
    for l in mc.layers:
        for t in TECH:
            if t == 'point_estimate' and not l.size:
                continue
            outs.append(nums(np.asarray(l.output(technique=t), dtype=float)))
    out['outputs'] = outs
    return out


def small(d):
    """long aspects as digests, so that observations stay short"""
    import zlib
    o = {}
    for k, v in d.items():
        s = json.dumps(v, sort_keys=True)
        o[k] = v if len(s) < 400 else [len(s), zlib.crc32(s.encode()) & 0x7fffffff, zlib.adler32(s.encode()) & 0x7fffffff]
    return o


def pair(ev, tag, a, b):
    ev.append(dict(op='twin', tag=tag, a=small(a), b=small(b)))


def clone(mc):
    """a new machine with the same current state"""
    new = lom.Machine()
    of = {}
    for m in mc.matrices:
        of[id(m)] = new.add_matrix(val=m.val.copy(), fixed=m.fixed)
    for l in mc.layers:
        ly = new.add_layer(latent_size=max(1, int(l.size)), child=of[id(l.child)], model=l.model)
        for f, g in zip(l.factors, ly.factors):
            of[id(f)] = g
        if hasattr(l, 'q'):
            of[id(l.q)] = ly.q
    for m in mc.members:
        g = of[id(m)]
        g.val = m.val.copy()
        g.fixed = m.fixed
        g.fixed_entries = m.fixed_entries.copy()
        g.bernoulli_prior = m.bernoulli_prior
    for l, ly in zip(mc.layers, new.layers):
        ly.lbda.val = np.array(l.lbda.val, copy=True) if np.ndim(l.lbda.val) else float(l.lbda.val)
        ly.lbda.fixed = l.lbda.fixed
        ly.lbda.beta_prior = tuple(l.lbda.beta_prior)
        ly.auto_clean, ly.auto_reset = l.auto_clean, l.auto_reset
        for a in ('alpha', 'gamma'):
            if hasattr(l, a):
                setattr(ly, a, getattr(l, a))
    new.anneal = mc.anneal
    return new


def random_settings(rng, anneal=False):
    return dict(no_samples=int(rng.choice([1, 2, 4])), convergence_window=int(rng.choice([2, 3, 4])),
                convergence_eps=float(rng.choice([1.3e-4, .03, 1.5])), burn_in_min=int(rng.choice([0, 1, 3])),
                burn_in_max=int(rng.choice([0, 4, 8])), fix_lbda_iters=0 if anneal else int(rng.choice([0, 0, 2])))


class poison:
    """memory that is allocated without being initialised contains `junk`"""
    def __init__(self, junk):
        self.junk = junk

    def __enter__(self):
        self.saved = np.empty, np.empty_like
        junk, (e, el) = self.junk, self.saved

        def fill(a):
            if a.dtype.kind in 'iufb' and a.size:
                a.fill(junk)
            return a
        np.empty = lambda *a, **k: fill(e(*a, **k))
        np.empty_like = lambda *a, **k: fill(el(*a, **k))

    def __exit__(self, *a):
        np.empty, np.empty_like = self.saved
