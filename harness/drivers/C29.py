"""Inferences that end early, at any moment, and what can be done with the machine afterwards."""
from common import *
import lifecycle as lc


def jobs(tier, seed):
    n = 420 if tier == 'quick' else 8000
    return [dict(tag='stop', r=r, seed=seed) for r in range(n)] + \
        [dict(tag='ibp', r=r, seed=seed) for r in range(n // 6)]


def settings(rng, mc, job):
    ramp = job['r'] % 4 == 3        # mostly annealing, with new dispersions in between
    mc.anneal = bool(rng.random() < (.8 if ramp else .1))
    if ramp and rng.random() < .4:
        for p in mc.lbdas:
            if np.ndim(p.val) == 0:
                p.val = float(rng.uniform(.1, 2.5))
    return dict(n=int(rng.choice([0, 1, 2, 3, 5])), W=int(rng.choice([1, 2, 3, 5])), eps=float(rng.choice([1.3e-4, .03, 1.5])),
                bmin=int(rng.choice([2, 3, 6] if ramp else [0, 1, 3])), bmax=int(rng.choice([0, 2, 6, 9])),
                fix=0 if mc.anneal else int(rng.choice([0, 0, 1, 3])))


def sizes(ly):
    return dict(z=lc.rows(ly.z.val), u=lc.rows(ly.u.val), zm=lc.rows(ly.z.fixed_entries), um=lc.rows(ly.u.fixed_entries))


def ibp(job, ev):
    """machines that change their size"""
    rng = rng_for('C29ibp', job['r'], job['seed'])
    np.random.seed(int(rng.integers(0, 2**31)))
    N, D = (int(v) for v in rng.integers(2, 6, size=2))
    mc = lom.Machine()
    d = mc.add_matrix(val=data(rng, (N, D), .1), fixed=True)
    ly = mc.add_layer(latent_size=int(rng.integers(1, 4)), child=d, model='OR-AND-IBP')
    ly.lbda.val = float(rng.uniform(.1, 2.5))
    ly.lbda.fixed = bool(rng.random() < .2)
    rec = lc.Recorder(mc)
    x = ints(d.val)
    for k in range(int(rng.integers(1, 4))):
        st = settings(rng, mc, job)
        decl = [rec.declared()[q] for q in ('ps', 'mc')]
        stop = lc.StopAt(int(math.exp(rng.uniform(math.log(8), math.log(8000)))))
        ended = True
        try:
            with stop:
                mc.infer(no_samples=st['n'], convergence_window=st['W'], convergence_eps=st['eps'], burn_in_min=st['bmin'],
                         burn_in_max=st['bmax'], fix_lbda_iters=st['fix'])
        except lc.Stop:
            ended = False
        ev.append(dict(op='ibpstop', tag='ibp/%s' % ('after' if ended else 'stop'), n=st['n'], ended=ended, N=N, D=D, x=x, x2=ints(d.val),
                       decl=decl == [rec.declared()[q] for q in ('ps', 'mc')],
                       tr=[lc.rows(t) for t in ly.z.trace] if ended and st['n'] else [],
                       tu=[lc.rows(t) for t in ly.u.trace] if ended and st['n'] else [], **sizes(ly)))


def observe(job, ev):
    if job['tag'] == 'ibp':
        return ibp(job, ev)
    rng = rng_for('C29', job['r'], job['seed'])
    np.random.seed(int(rng.integers(0, 2**31)))
    kind = lc.KINDS[job['r'] % len(lc.KINDS)]
    mc = lc.machine_of(kind, rng)
    lc.perturb(mc, rng)
    after = False
    for k in range(int(rng.integers(0, 2))):
        lc.record(mc, ev, tag='%s/before' % kind, **settings(rng, mc, job))
    for k in range(int(rng.integers(1, 4))):
        if k and rng.random() < .3:
            lc.perturb(mc, rng)
        at = int(math.exp(rng.uniform(math.log(8 if rng.random() < .8 else 1), math.log(15000))))
        e = lc.record(mc, ev, tag='%s/stop%d' % (kind, k + 1), stop=at, after=after, **settings(rng, mc, job))
        after = e is not None and e['ev'][-1]['k'] == 'X'
        if not after:
            return
        for ly in mc.layers:
            if rng.random() < .3:           # nothing a query is ended in is changed by it
                rec = lc.Recorder(mc)
                before = [rec.state(), rec.declared()]
                try:
                    with lc.StopAt(int(rng.integers(0, 12))):
                        ly.output(technique='point_estimate')
                except lc.Stop:
                    pass
                ev.append(dict(op='same', tag='query/%s' % kind, before=before, after=[rec.state(), rec.declared()]))
    if rng.random() < .3:
        lc.perturb(mc, rng)
    for k in range(int(rng.integers(1, 3))):
        lc.record(mc, ev, tag='%s/after%d' % (kind, k + 1), after=True, **settings(rng, mc, job))
