"""Members, entries and dispersions declared fixed, over histories of inference and queries."""
from common import *
import lifecycle as lc

TECH = ['factor_map', 'factor_mean', 'mc', 'point_estimate', 'factor_mean_old']


def jobs(tier, seed):
    n = 480 if tier == 'quick' else 8000
    return [dict(tag='fix', r=r, seed=seed) for r in range(n)]


def observe(job, ev):
    rng = rng_for('C07', job['r'], job['seed'])
    np.random.seed(int(rng.integers(0, 2**31)))
    kind = lc.KINDS[job['r'] % len(lc.KINDS)]
    mc = lc.machine_of(kind, rng)
    lc.perturb(mc, rng, pfix=.35, pmask=.7)
    if rng.random() < .3:
        # further matrices: entirely fixed, or fixed entry by entry
        m = mc.add_matrix(val=pm(rng, 2, 3), fixed=True)
        l = mc.add_layer(latent_size=2, child=mc.add_matrix(
            val=pm(rng, 3, 3), fixed=(rng.random((3, 3)) < .5).astype(int)), model=CLANS[int(rng.integers(0, 8))])
    if rng.random() < .2:
        for m in mc.members:
            m.fixed_entries = np.ones(m.val.shape, dtype=np.int8)
    for run in range(1 + job['r'] % 3):
        mc.anneal = bool(rng.random() < .15)
        lc.record(mc, ev, tag='%s/run%d' % (kind, run + 1), n=int(rng.choice([1, 2, 4])), W=int(rng.choice([1, 2, 3])),
                  eps=float(rng.choice([1.3e-4, .03, 1.5])), bmin=int(rng.choice([0, 1, 3])),
                  bmax=int(rng.choice([0, 2, 6])), fix=0 if mc.anneal else int(rng.choice([0, 0, 2])))
        # queries in between change nothing: the next run starts from the same state
        before = lc.Recorder(mc).state()
        for ly in mc.layers:
            for _ in range(2):
                t = TECH[int(rng.integers(0, len(TECH)))]
                if ly.model == 'MAX-AND' and t == 'factor_mean_old' or ly.model == 'qL-AND':
                    t = 'point_estimate'
                ly.output(technique=t, noisy_emission=bool(rng.integers(0, 2)))
        for m in mc.members:
            m.mean()
        after = lc.Recorder(mc).state()
        if rng.random() < .6:           # other declarations for the next run
            lc.perturb(mc, rng, pfix=float(rng.choice([.2, .5])), pmask=.4)
            for m in mc.members:
                if rng.random() < .3 and m.fixed_entries.shape == m.val.shape:
                    ix = tuple(int(rng.integers(0, n)) for n in m.val.shape)
                    m.fixed_entries[ix] = 1 - m.fixed_entries[ix]
        ev.append(dict(op='same', tag='query/%s' % kind, before=before, after=after))
