MU = 'lom/_numba/matrix_updates_numba.py'
AU = 'lom/auxiliary_functions.py'
MA = 'lom/machine.py'

SEEDS = [

dict(id='c26-fuzzy-xor-ratio', property='C26',
 needs='a probability of exactly 1 in the argument of the probabilistic XOR',
 breaks='the probabilistic XOR is computed from odds, which do not exist for a certain input',
 edits=[(AU, '''    def XOR(x):
        return np.sum(
            [np.prod(
                [1 - x[i] for i in range(len(x)) if i != j] + [x[j]])
                for j in range(len(x))])
''', '''    def XOR(x):
        # linear instead of quadratic in the number of inputs
        x = np.asarray(x, dtype=float)
        return np.prod(1 - x) * np.sum(x / np.maximum(1 - x, 1e-300))
''')],
 demo='''
f = aux.get_fuzzy_lop('XOR')
for v, p in (([.5, .5], .5), ([1., 0.], 1.), ([0., 1., 0.], 1.), ([1., 1.], 0.), ([1., .25], .75), ([.1], .1)):
    check(abs(float(f(np.array(v))) - p) < 1e-9, 'XOR of %s' % v)
'''),

dict(id='c26-fuzzy-nor-log', property='C26',
 needs='a probability of exactly 1 in a longer vector together with the probabilistic NOR or OR',
 breaks='the complement of OR is computed through logarithms with a floor, so certain inputs leave a rest that adds up',
 edits=[(AU, '''    @jit
    def NOR(x):
        return np.prod(1 - x)
''', '''    @jit
    def NOR(x):
        # stable for long vectors
        return np.exp(np.sum(np.log1p(-np.minimum(x, .9999))))
''')],
 demo='''
check(float(aux.get_fuzzy_lop('NOR')(np.array([1.0]))) < 1e-9, 'NOR of a certain input')
check(float(aux.get_fuzzy_lop('NOR')(np.array([1.0, .2]))) < 1e-9, 'NOR of a certain input')
check(abs(float(aux.get_fuzzy_lop('NOR')(np.array([.5, .2]))) - .4) < 1e-9, 'NOR')
'''),

dict(id='c26-family-twice', property='C26',
 needs='the list of families of the implemented models',
 breaks='one of the families is represented by a member of another listed one and so missing',
 edits=[(AU, "'NXOR-NAND', 'NXOR-AND', 'NXOR-NXOR', 'NXOR-XOR']\n    elif mode", "'XOR-OR', 'NXOR-AND', 'NXOR-NXOR', 'NXOR-XOR']\n    elif mode")],
 demo='''
import itertools
OPS = dict(AND=lambda v: all(v), NAND=lambda v: not all(v), OR=lambda v: any(v), NOR=lambda v: not any(v),
           XOR=lambda v: sum(v) == 1, NXOR=lambda v: sum(v) != 1)


def table(model, inv):
    o, i = model.split('-')
    t = []
    for K, L in ((2, 2), (3, 2), (2, 3)):
        for v in itertools.product([False, True], repeat=K * L):
            t.append(OPS[o]([OPS[i]([v[k * L + l] != inv for k in range(K)]) for l in range(L)]))
    return tuple(t)


for mode in ('implemented', 'canonical'):
    fam = aux.canonical_loms('families', mode)
    groups = [frozenset([table(f, False), table(f, True)]) for f in fam]
    check(len(set(groups)) == len(groups), 'every family once (%s)' % mode)
'''),

dict(id='c27-mode-of-ties', property='C27',
 needs='an even number of samples of which exactly half have the entry 1, and a member set to its posterior mode',
 breaks='the posterior mode of an entry whose samples are balanced differs from the one used in the outputs',
 edits=[(MA, 'self.val = np.array(self.mean() > 0, dtype=np.int8)', 'self.val = np.array(self.mean() >= 0, dtype=np.int8)')],
 demo='''
m = lom.Machine()
with quiet():
    d = m.add_matrix(val=np.ones([3, 3], dtype=np.int8), fixed=True)
    l = m.add_layer(latent_size=1, child=d, model='OR-AND')
    m.infer(no_samples=2, burn_in_min=0, burn_in_max=1)
    l.z.trace[0] = 1
    l.z.trace[1] = [[1], [-1], [-1]]
    l.u.trace[:] = 1
    out = l.output('factor_map')
    l.z.set_to_map()
    l.u.set_to_map()
    point = l.output('point_estimate')
check(np.array_equal(np.unique(l.z()), [-1, 1]), 'coding')
check(np.array_equal(out, point), 'the mode used in outputs is the one set')
'''),

dict(id='c27-counts-listed-again', property='C27',
 needs='a qL-AND layer, and asking for the members more than once (as every inference does)',
 breaks='asking for the members of a machine adds its thresholds to the matrices, once more every time',
 edits=[(MA, '''        return layer_mats + single_mats + q_mat
''', '''        single_mats += q_mat

        return layer_mats + single_mats
''')],
 demo='''
m = lom.Machine()
with quiet():
    d = m.add_matrix(val=np.ones([3, 3], dtype=np.int8), fixed=True)
    l = m.add_layer(latent_size=2, child=d, model='qL-AND')
a = [id(x) for x in m.members]
b = [id(x) for x in m.members]
check(sorted(a) == sorted(b) == sorted(map(id, [l.z, l.u, d, l.q])), 'members')
check(len(m.matrices) == 1, 'matrices')
'''),

dict(id='c27-lazy-before-noise', property='C27',
 needs='an output with noisy emission, asked for again lazily',
 breaks='what is remembered for lazy outputs is the output without the noise that was asked for',
 edits=[(MA, '''            # convert to probability of generating a 1
            if noisy_emission is True:
                out = out * aux.expit(self.lbda.mean()) +\\
                    (1 - out) * aux.expit(-self.lbda.mean())

        self.prediction = out
''', '''            # convert to probability of generating a 1
            self.prediction = out
            if noisy_emission is True:
                out = out * aux.expit(self.lbda.mean()) +\\
                    (1 - out) * aux.expit(-self.lbda.mean())

        if noisy_emission is not True:
            self.prediction = out
''')],
 demo='''
m = lom.Machine()
with quiet():
    d = m.add_matrix(val=np.ones([3, 3], dtype=np.int8), fixed=True)
    l = m.add_layer(latent_size=2, child=d, model='OR-AND')
    m.infer(no_samples=3, burn_in_min=2, burn_in_max=3)
    l.lbda.trace[:] = .5
    for t in ('point_estimate', 'factor_map', 'factor_mean', 'mc'):
        a = np.array(l.output(t, noisy_emission=True))
        b = np.array(l.output(t, noisy_emission=True, lazy=True))
        check(np.allclose(a, b), 'lazy ' + t)
'''),

]
