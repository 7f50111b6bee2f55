"""Observation of the conditional of one entry through Machine.infer()."""
from common import *


def prior_of(micro):
    """probability with the given log odds (micro)"""
    return 1 / (1 + math.exp(-micro / MICRO))


def freeze(machine, mat, idx, live=False, open_=()):
    """fix everything except entry idx of mat (and, if live, the dispersions, which an
    iteration updates after the entry: returns what puts them back). The members in open_
    are not flagged fixed: each of their entries is."""
    for m in machine.members:
        if any(m is o for o in open_):
            m.fixed = False
            m.fixed_entries = np.ones(m.val.shape, dtype=np.int8)
        else:
            m.fixed = m is not mat
    for p in machine.lbdas:
        p.fixed = not live
    fe = np.ones(mat.val.shape, dtype=np.int8)
    fe[idx] = 0
    mat.fixed_entries = fe
    if not live:
        return None
    kept = [(p, np.array(p.val) if np.ndim(p.val) else p.val) for p in machine.lbdas]

    def reset():
        for p, v in kept:
            p.val = v.copy() if np.ndim(v) else v
    return reset


def layer_desc(lay, lam):
    return dict(**op(lay.model), f=[ints(f()) for f in lay.factors], lam=lam)


def site(machine, mat, idx, lam, prior, pars=(), tag=''):
    """lam, prior: micro; pars: list of (layer, lam)"""
    lay = mat.layer
    e = dict(op='site', tag=tag, own=lay is not None, prior=prior, ix=[int(i) + 1 for i in idx])
    if lay is not None:
        e.update(layer_desc(lay, lam), m=lay.factors.index(mat) + 1, n=int(idx[0]) + 1, l=int(idx[1]) + 1,
                 x=ints(lay.child()))
    e['par'] = [layer_desc(q, lq) for q, lq in pars]
    live = (sum(int(i) for i in idx) + int(mat.val.sum(dtype=int))) % 2 == 0 and all(p.child().size < 400 for p in machine.layers)
    salt = int(mat.val.sum(dtype=int)) + sum(3 * int(i) for i in idx)
    open_ = [f for k, f in enumerate(f for p in machine.layers for f in p.factors if f is not mat)
             if (salt >> (k % 3)) % 2 and f.val.size < 60][:2]      # the order of updates is random
    kept = [(f, f.fixed_entries) for f in open_]
    reset = freeze(machine, mat, idx, live, open_)
    shared = [m for m in machine.members if m is not mat]
    before = [m.val.copy() for m in shared] + [np.array(p.val) for p in machine.lbdas]
    up, dn, same = site_logodds(machine, mat, idx, reset=reset)
    after = [m.val for m in shared] + [np.array(p.val) for p in machine.lbdas]
    same = same and all(np.array_equal(a, b) for a, b in zip(before, after))
    for f, fe in kept:
        f.fixed, f.fixed_entries = True, fe
    e.update(lo=logodds_micro(up, dn), same=bool(same))
    return e
