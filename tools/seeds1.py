MU = 'lom/_numba/matrix_updates_numba.py'
LU = 'lom/_numba/lambda_updates_numba.py'
LO = 'lom/_numba/lom_outputs.py'
LF = 'lom/_numba/lom_outputs_fuzzy.py'
PS = 'lom/_numba/posterior_score_fcts.py'
MM = 'lom/_numba/max_machine_sampler.py'
AU = 'lom/auxiliary_functions.py'
EX = 'lom/experiments.py'
MA = 'lom/machine.py'
WR = 'lom/matrix_update_wrappers.py'

SEEDS = [

dict(id='c01-xor-wraps', property='C01',
 needs='257 (mod 256: 1) latent dimensions in which the two factors agree',
 breaks='the 8 bit counter of active dimensions wraps around, XOR-NXOR of 257 true inputs becomes 1',
 edits=[(LO, '''        if u[i] == z[i]:
            xor_count += 1
        if xor_count > 1:
            return -1
    if xor_count == 1:''', '''        if u[i] == z[i]:
            xor_count += 1
    if xor_count == 1:''')],
 demo='''
z = np.ones([2, 257], dtype=np.int8)
u = np.ones([3, 257], dtype=np.int8)
with quiet():
    out = aux.lom_generate_data_fast([z, u], 'XOR-NXOR')
    ref = aux.lom_generate_data([z, u], 'XOR-NXOR')
check(np.all(ref == -1), 'reference')
check(np.all(out == ref), '257 active dimensions are not exactly one')
'''),

dict(id='c02-equal-probabilities', property='C02',
 needs='both factors having the same probability, other than 0 and 1, in some latent dimension',
 breaks='OR-XOR fuzzy product treats a dimension with equal probabilities as one with equal values',
 edits=[(LF, '''        temp *= (Z_n[l] * U_d[l]) + (1 - Z_n[l]) * (1 - U_d[l])
    return 1 - temp''', '''        # inputs that agree do not contribute
        if Z_n[l] != U_d[l]:
            temp *= (Z_n[l] * U_d[l]) + (1 - Z_n[l]) * (1 - U_d[l])
    return 1 - temp''')],
 demo='''
z = np.array([[.5, .3]])
u = np.array([[.5, .2]])
with quiet():
    out = aux.lom_generate_data_fast([z, u], 'OR-XOR', fuzzy=True)
p = [a * (1 - b) + b * (1 - a) for a, b in zip(z[0], u[0])]
check(abs(out[0, 0] - (1 - (1 - p[0]) * (1 - p[1]))) < 1e-9, 'P(OR of XORs)')
'''),

dict(id='c03-nxor-or', property='C03',
 needs='a layer requested with model NXOR-OR',
 breaks='factors have to be inverted but inversion is not reported',
 edits=[(AU, '''    elif model_new == 'NXOR-OR':
        model_new = 'XOR-NAND'
        invert_data = True
        invert_factors = True
''', '''    elif model_new == 'NXOR-OR':
        model_new = 'XOR-NAND'
        invert_data = True
''')],
 demo='''
np.random.seed(0)
z, u = [2 * np.random.randint(0, 2, size=[n, 3]).astype(np.int8) - 1 for n in (6, 5)]
with quiet():
    x = aux.lom_generate_data([z, u], 'NXOR-OR')
    m = lom.Machine()
    d = m.add_matrix(x.copy(), fixed=True)
    l = m.add_layer(latent_size=3, child=d, model='NXOR-OR')
    s = -1 if l.invert_factors else 1
    l.z.val, l.u.val = s * z, s * u
    out = 2 * l.output('point_estimate') - 1
check(np.all(out == d()), 'the layer reproduces its data with the true factors')
check(np.all(d() == (-x if l.invert_data else x)), 'data inverted as reported')
'''),

dict(id='c04-score-16bit', property='C04',
 needs='an entry whose update affects more than 32767 data cells on balance',
 breaks='the balance of explained cells of a three-factor OR-AND layer overflows 16 bits',
 edits=[(PS, '''    D, L = U.shape
    M, _ = V.shape

    score = int64(0)
    for d in range(D):
        for m in range(M):
            if (U[d, l] != 1) or (V[m, l] != 1):  # AND
                continue

            alrdy_active = False
            for l_prime in range(L):
                if (Z_n[l_prime] == 1) and\\
                    (U[d, l_prime] == 1) and\\
                    (V[m, l_prime] == 1) and\\
                        (l_prime != l):
                    alrdy_active = True  # OR
                    break
''', '''    D, L = U.shape
    M, _ = V.shape

    score = np.int16(0)
    for d in range(D):
        for m in range(M):
            if (U[d, l] != 1) or (V[m, l] != 1):  # AND
                continue

            alrdy_active = False
            for l_prime in range(L):
                if (Z_n[l_prime] == 1) and\\
                    (U[d, l_prime] == 1) and\\
                    (V[m, l_prime] == 1) and\\
                        (l_prime != l):
                    alrdy_active = True  # OR
                    break
''')],
 demo='''
x = np.ones([1, 183, 182], dtype=np.int8)
with quiet():
    m = lom.Machine()
    d = m.add_matrix(x, fixed=True)
    l = m.add_layer(latent_size=1, child=d, model='OR-AND')
    for f in l.factors:
        f.val[:] = 1
    l.u.fixed = l.v.fixed = True
    l.lbda.val, l.lbda.fixed = .01, True
    m.infer(burn_in_min=1, burn_in_max=2, convergence_window=1, no_samples=20)
check(np.all(l.z.trace == 1), 'all 33306 cells are ones that only z explains')
'''),

dict(id='c05-stale-row', property='C05',
 needs='a factor that is the child of another layer, and latent dimensions that explain the same cells',
 breaks='entries of a row are updated given the row as it was before its update, not the current one',
 edits=[(MU, '''        def sampling_fct(Z, Z_fixed, U, X, lbda, pa1, pa2, lbda_pa, logit_prior):
            N, L = Z.shape
            for n in prange(N):
                for l in range(L):
                    if Z_fixed[n, l] == 1:
                        continue
                    logit_score = lbda *\\
                        posterior_score_fct(Z[n, :], U, X[n, :], l)
''', '''        def sampling_fct(Z, Z_fixed, U, X, lbda, pa1, pa2, lbda_pa, logit_prior):
            N, L = Z.shape
            for n in prange(N):
                Z_n = Z[n, :].copy()
                for l in range(L):
                    if Z_fixed[n, l] == 1:
                        continue
                    logit_score = lbda *\\
                        posterior_score_fct(Z_n, U, X[n, :], l)
''')],
 demo='''
# a single cell explained by either of two dimensions: never both or none at large lambda
np.random.seed(1)
n = 40
with quiet():
    m = lom.Machine()
    d = m.add_matrix(np.ones([n, 4], dtype=np.int8), fixed=True)
    l = m.add_layer(latent_size=2, child=d, model='XOR-AND')
    l2 = m.add_layer(latent_size=1, child=l.z, model='OR-AND')
    l.u.val[:] = 1
    l.u.fixed = l2.z.fixed = l2.u.fixed = True
    l.lbda.val, l2.lbda.val = 3., 0.
    l.lbda.fixed = l2.lbda.fixed = True
    m.infer(burn_in_min=5, burn_in_max=6, convergence_window=1, no_samples=200)
one = np.mean((l.z.trace == 1).sum(axis=2) == 1)
p = 2 * np.exp(12) / (2 * np.exp(12) + 2 * np.exp(-12))
check(abs(one - p) < .02, 'exactly one of the two dimensions is active: %f' % one)
'''),

dict(id='c06-beta-swapped', property='C06',
 needs='an asymmetric beta prior on the dispersion of a layer',
 breaks='the two parameters of the beta prior are mixed up',
 edits=[(LU, '''            P = counter(*[x.val for x in parm.layer.factors], parm.layer.child())
            # number of data points that are to be predicted
            ND = np.prod(parm.layer.child().shape) - np.count_nonzero(parm.layer.child() == 0)
            parm.val = np.max([-np.log(((ND + alpha + beta) / (float(P) + alpha)) - 1), 0])
''', '''            P = counter(*[x.val for x in parm.layer.factors], parm.layer.child())
            # number of data points that are to be predicted
            ND = np.prod(parm.layer.child().shape) - np.count_nonzero(parm.layer.child() == 0)
            parm.val = np.max([-np.log(((ND + alpha + beta) / (float(P) + beta)) - 1), 0])
''')],
 demo='''
with quiet():
    m = lom.Machine()
    d = m.add_matrix(np.ones([3, 4], dtype=np.int8), fixed=True)
    l = m.add_layer(latent_size=1, child=d, model='OR-AND')
    l.z.val[:] = 1
    l.u.val[:] = 1
    l.z.fixed = l.u.fixed = True
    l.lbda.beta_prior = (1, 7)
    m.infer(burn_in_min=1, burn_in_max=2, convergence_window=1, no_samples=1)
check(abs(aux.expit(l.lbda()) - 13 / 20.) < 1e-6, 'smoothed fraction of explained cells')
'''),

dict(id='c07-two-parents-mask', property='C07',
 needs='an entry mask on a matrix that is the child of two layers and a factor of none',
 breaks='the mask of fixed entries is ignored',
 edits=[(MU, '''                    if Z_fixed[n, l] == 1:
                        continue

                    logit_parent_score_1 = lbda_pa1 *\\''', '''                    logit_parent_score_1 = lbda_pa1 *\\''')],
 demo='''
np.random.seed(0)
mask = np.zeros([3, 4], dtype=np.int8)
mask[1, 2] = mask[0, 0] = 1
x = np.ones([3, 4], dtype=np.int8)
with quiet():
    m = lom.Machine()
    d = m.add_matrix(x, fixed=mask)
    for i in range(2):
        m.add_layer(latent_size=2, child=d, model='OR-AND')
    m.infer(burn_in_min=2, burn_in_max=4, convergence_window=2, no_samples=40)
check(np.all(d.trace[:, 1, 2] == 1) and np.all(d.trace[:, 0, 0] == 1), 'fixed entries stay')
check(not np.all(d.trace == 1), 'other entries are sampled')
'''),

dict(id='c08-second-dispersion', property='C08',
 needs='a factor that is the child of two layers with different dispersions',
 breaks='the second parent layer is weighted with the dispersion of the first',
 edits=[(MU, '''                    logit_score = lbda *\\
                        posterior_score_fct(Z[n, :], U, X[n, :], l)  # V?

                    logit_parent_score_1 = lbda_pa1 *\\
                        parent_posterior_score_fct_1(pa1_1[n, :], pa1_2[l, :])

                    logit_parent_score_2 = lbda_pa2 *\\''', '''                    logit_score = lbda *\\
                        posterior_score_fct(Z[n, :], U, X[n, :], l)  # V?

                    logit_parent_score_1 = lbda_pa1 *\\
                        parent_posterior_score_fct_1(pa1_1[n, :], pa1_2[l, :])

                    logit_parent_score_2 = lbda_pa1 *\\''')],
 demo='''
np.random.seed(0)
with quiet():
    m = lom.Machine()
    d = m.add_matrix(np.zeros([30, 2], dtype=np.int8), fixed=True)
    l = m.add_layer(latent_size=3, child=d, model='OR-AND')
    a = m.add_layer(latent_size=1, child=l.z, model='OR-AND')
    b = m.add_layer(latent_size=1, child=l.z, model='OR-AND')
    for f in a.factors + b.factors + [l.u]:
        f.val[:] = 1
        f.fixed = True
    b.z.val[:] = -1
    for lr, v in ((l, 1.), (a, .2), (b, 1.5)):
        lr.lbda.val, lr.lbda.fixed = v, True
    m.infer(burn_in_min=10, burn_in_max=12, convergence_window=1, no_samples=150)
p = np.mean(l.z.trace == 1)
check(abs(p - aux.expit(.2 - 1.5)) < .03, 'evidence of both parents, %f' % p)
'''),

dict(id='c09-random-scan', property='C09',
 needs='several free matrices, so that some are drawn twice and others not at all in an iteration',
 breaks='matrices to update are drawn with replacement in the sampling phase',
 edits=[(MA, '''            # sample mats and write to trace # shuffle(mats)
            [mat.sampling_fct(mat) for mat in np.random.permutation(mats)]
''', '''            # sample mats and write to trace # shuffle(mats)
            [mat.sampling_fct(mat) for mat in np.random.choice(mats, len(mats))]
''')],
 demo='''
# at dispersion 0 an update hardly ever leaves all of 120 entries as they are
with quiet():
    m = lom.Machine()
    d = m.add_matrix(np.zeros([30, 40], dtype=np.int8), fixed=True)
    l = m.add_layer(latent_size=4, child=d, model='OR-AND')
    l.lbda.val, l.lbda.fixed = 0., True
    m.infer(burn_in_min=1, burn_in_max=2, convergence_window=1, no_samples=20)
for f in l.factors:
    check(not np.any(np.all(f.trace[1:] == f.trace[:-1], axis=(1, 2))),
          'each free matrix is updated exactly once per iteration')
'''),

dict(id='c10-baseline-unchecked', property='C10',
 needs='a MAX-AND layer in which only the baseline has not yet converged',
 breaks='the last of several dispersion parameters is not considered for convergence',
 edits=[(MA, '''                 for l in range(self.trace.shape[1])])''', '''                 for l in range(self.trace.shape[1] - 1)])''')],
 demo='''
p = lom.machine.MachineParameter(np.array([.8, .1])) if hasattr(lom, 'machine') else None
check(p is not None, 'no MachineParameter')
p.trace = np.array([[.8, .1], [.8, .1], [.8, .9], [.8, .9]])
check(not p.check_convergence(1e-2), 'second parameter has not converged')
p.trace = np.array([[.8, .1], [.8, .1], [.8, .1], [.8, .1]])
check(p.check_convergence(1e-2), 'converged')
'''),

dict(id='c10-odd-window', property='C10',
 needs='an odd convergence window (the default is 15)',
 breaks='the middle iteration of the window is left out of both halves',
 edits=[(AU, '''    r2 = expit(np.mean(trace[l:]))''', '''    r2 = expit(np.mean(trace[-l:]))''')],
 demo='''
t = np.array([1., 1., 5., 1., 1.])
check(not aux.check_convergence_single_trace(t, 1e-2), 'halves are [1, 1] and [5, 1, 1]')
'''),

dict(id='c12-third-factor', property='C12',
 needs='a three-factor layer with two dimensions that are duplicates in the third factor only',
 breaks='duplicates in the third factor are not removed',
 edits=[(AU, '''            for f in layer.factors:
                if np.all(f()[:, l] == f()[:, l_prime]):''', '''            for f in (layer.z, layer.u):
                if np.all(f()[:, l] == f()[:, l_prime]):''')],
 demo='''
with quiet():
    m = lom.Machine()
    d = m.add_matrix(np.ones([3, 3, 3], dtype=np.int8), fixed=True)
    l = m.add_layer(latent_size=3, child=d, model='OR-AND')
    l.z.val = 2 * np.eye(3, dtype=np.int8) - 1
    l.u.val = 2 * np.eye(3, dtype=np.int8) - 1
    l.v.val = np.array([[1, 1, -1], [1, 1, -1], [-1, -1, 1]], dtype=np.int8)
    done = aux.clean_up_codes(l, reset=False, clean=True)
check(done and l.size == 2, 'duplicate dimension is removed')
check(np.all(l.v() == [[1, -1], [1, -1], [-1, 1]]), 'first one stays')
'''),

dict(id='c13-noisy-current', property='C13',
 needs='noisy emission, and a dispersion whose last sample differs from its mean',
 breaks='probabilities are mixed with the current instead of the mean dispersion',
 edits=[(MA, '''                out = out * aux.expit(self.lbda.mean()) +\\
                    (1 - out) * aux.expit(-self.lbda.mean())''', '''                out = out * aux.expit(self.lbda()) +\\
                    (1 - out) * aux.expit(-self.lbda())''')],
 demo='''
np.random.seed(2)
with quiet():
    m = lom.Machine()
    d = m.add_matrix(2 * np.random.randint(0, 2, size=[6, 7]).astype(np.int8) - 1, fixed=True)
    l = m.add_layer(latent_size=2, child=d, model='OR-AND')
    m.infer(burn_in_min=2, burn_in_max=4, convergence_window=2, no_samples=25)
    s = aux.expit(np.mean(l.lbda.trace))
    p = l.output('factor_mean')
    q = l.output('factor_mean', noisy_emission=True)
check(len(set(np.round(l.lbda.trace, 5))) > 1, 'dispersion moves')
check(np.allclose(q, p * s + (1 - p) * (1 - s)), 'mean dispersion')
'''),

dict(id='c14-younger-sum', property='C14',
 needs='three dimensions of which two with smaller dispersions are both active at a cell',
 breaks='all less likely active dimensions are counted, not just the next one',
 edits=[(MM, '''                    score += lbda_ratios[1, l_sorted[l], l_sorted[l_prime_idx]]
                alrdy_active = True
                break
''', '''                    score += lbda_ratios[1, l_sorted[l], l_sorted[l_prime_idx]]
                alrdy_active = True
''')],
 demo='''
np.random.seed(0)
n = 60
with quiet():
    m = lom.Machine()
    d = m.add_matrix(np.ones([n, 2], dtype=np.int8), fixed=True)
    l = m.add_layer(latent_size=3, child=d, model='MAX-AND')
    l.u.val[:] = 1
    l.z.val[:] = 1
    mask = np.ones([n, 3], dtype=np.int8)
    mask[:, 0] = 0
    l.z.fixed_entries = mask
    l.u.fixed = l.lbda.fixed = True
    l.lbda.val = np.array([.8, .6, .4, .1])
    m.infer(burn_in_min=5, burn_in_max=6, convergence_window=1, no_samples=60)
p = np.mean(l.z.trace[:, :, 0] == 1)
o = (.8 / .6)**2
check(abs(p - o / (1 + o)) < .04, 'likelihood ratio against the next dimension: %f' % p)
'''),

dict(id='c15-claimed-twice', property='C15',
 needs='three latent dimensions that overlap in the same cells',
 breaks='cells claimed already are subtracted again from the counts of the remaining dimensions',
 edits=[(MM, '''        temp_array = predictions[l_max] & ~mask''', '''        temp_array = predictions[l_max]''')],
 demo='''
with quiet():
    m = lom.Machine()
    x = np.array([[1, 1, 1, 1, 1, -1, 1, -1, -1, -1]], dtype=np.int8)
    d = m.add_matrix(x, fixed=True)
    l = m.add_layer(latent_size=3, child=d, model='MAX-AND')
    l.z.val[:] = 1
    l.u.val[:] = -1
    l.u.val[:4, 0] = 1
    l.u.val[2:6, 1] = 1
    l.u.val[3:9, 2] = 1
    l.z.fixed = l.u.fixed = True
    m.infer(burn_in_min=1, burn_in_max=2, convergence_window=1, no_samples=1)
lb = np.array(l.lbda(), dtype=float)
# 0: 4/4 -> 5/6; rest of 1: cells 4, 5 -> 1 of 2 -> 2/4; rest of 2: cells 6, 7, 8 -> 1 of 3 -> 2/5
check(np.allclose(lb, [5 / 6., 2 / 4., 2 / 5., 1 / 3.]), str(lb))
'''),

dict(id='c16-missing-negative', property='C16',
 needs='missing cells in the data of an OR-AND-IBP layer',
 breaks='missing cells count as minus ones for the number of new dimensions',
 edits=[(MU, '''        TN = ((X[n, :] == -1) * (np.array(n_predict) == -1)).sum()''',
 '''        TN = ((X[n, :] != 1) * (np.array(n_predict) == -1)).sum()''')],
 demo='''
# without any data, dimensions appear according to their prior
def grown(D):
    np.random.seed(3)
    n = []
    for i in range(150):
        with quiet():
            m = lom.Machine()
            d = m.add_matrix(np.zeros([2, D], dtype=np.int8), fixed=True)
            l = m.add_layer(latent_size=1, child=d, model='OR-AND-IBP')
            l.lbda.val, l.lbda.fixed = 3., True
            l.z.val[:] = -1
            l.alpha = 2.
            m.infer(burn_in_min=0, burn_in_max=0, convergence_window=1, no_samples=1)
        n.append(l.size)
    return np.mean(n)
a = grown(30)
check(a > 1., 'new dimensions under the prior: %f' % a)
'''),

dict(id='c17-factorial', property='C17',
 needs='thresholds of a qL-AND layer with little data, so that their prior matters',
 breaks='Poisson weight of a threshold has the factorial of the previous integer',
 edits=[(MU, '''                gamma - lgamma(q_new + 2)''', '''                gamma - lgamma(q_new + 1)''')],
 demo='''
np.random.seed(1)
with quiet():
    m = lom.Machine()
    d = m.add_matrix(np.zeros([2, 60], dtype=np.int8), fixed=True)
    l = m.add_layer(latent_size=2, child=d, model='qL-AND')
    m.infer(burn_in_min=1, burn_in_max=2, convergence_window=1, no_samples=60)
w = 1 / np.cumprod(np.arange(1., 6.))
p = np.mean(l.q.trace == 1)
check(abs(p - w[0] / w.sum()) < .05, 'P(q = 1) = %f' % p)
'''),

dict(id='c18-missing-held-out', property='C18',
 needs='missing cells in the data that is split',
 breaks='missing cells are reported as held out',
 edits=[(EX, '''        mask[tensor == 0] = False

''', '''
''')],
 demo='''
import lom.experiments as ex
np.random.seed(0)
x = 2 * np.random.randint(0, 2, size=[30, 20]).astype(np.int8) - 1
x[::3] = 0
train, mask = ex.split_train_test(x, split=.3)
check(mask.any() and np.all(x[mask] != 0), 'held-out cells were observed')
'''),

dict(id='c19-nested-columns', property='C19',
 needs='a later column of a random factor that is contained in an earlier one',
 breaks='random products may have nested columns',
 edits=[(AU, '''for i, j in list(itertools.permutations(range(L), 2))])''',
 '''for i, j in list(itertools.combinations(range(L), 2))])''')],
 demo='''
np.random.seed(0)
for i in range(60):
    for f in aux.generate_orm_product(N=5, D=5, L=3)[:2]:
        for a in range(3):
            for b in range(3):
                check(a == b or np.any((f[:, a] == 1) & (f[:, b] == -1)), 'column %d within %d' % (a, b))
'''),

dict(id='c20-nxor-nxor', property='C20',
 needs='more than one latent dimension in an NXOR-NXOR model',
 breaks='the expected density of NXOR-NXOR uses the XOR-XOR formula with the wrong inversions',
 edits=[(AU, '''    if model == 'XOR-NXOR' or model == 'NXOR-NXOR':
''', '''    if model == 'XOR-NXOR':
''')],
 demo='''
f = .3
p = 2 * f * (1 - f)       # XOR
q = 1 - p
exact = 1 - 2 * q * p     # not exactly one of two NXORs
d = aux.expected_density('NXOR-NXOR', 2, 2, f)
check(abs(d - exact) < 1e-9, '%f %f' % (d, exact))
'''),

dict(id='c21-stale-data', property='C21',
 needs='replacing the data array of a machine between two runs of inference',
 breaks='the second run still uses the data of the first for sampling factors',
 edits=[(WR, '''            sample = numba_mu.make_sampling_fct_onechild(mod)

            def LOM_sampler(mat):
                # numba_mu.draw_OR_AND_2D(
                sample(
                    mat(),
                    mat.fixed_entries,
                    *[x() for x in mat.siblings],
                    mat.layer.child().transpose(transpose_order),
''', '''            sample = numba_mu.make_sampling_fct_onechild(mod)
            child = mat.layer.child().transpose(transpose_order)

            def LOM_sampler(mat):
                # numba_mu.draw_OR_AND_2D(
                sample(
                    mat(),
                    mat.fixed_entries,
                    *[x() for x in mat.siblings],
                    child,
''')],
 demo='''
np.random.seed(0)
with quiet():
    m = lom.Machine()
    d = m.add_matrix(np.ones([10, 12], dtype=np.int8), fixed=True)
    l = m.add_layer(latent_size=1, child=d, model='OR-AND')
    l.lbda.val, l.lbda.fixed = 2., True
    m.infer(burn_in_min=10, burn_in_max=12, convergence_window=1, no_samples=5)
    d.val = -np.ones([10, 12], dtype=np.int8)
    m.infer(burn_in_min=20, burn_in_max=22, convergence_window=1, no_samples=5)
    out = l.output('factor_map')
check(np.mean(out) < .1, 'second run follows the new data')
'''),

dict(id='c22-recoding-in-place', property='C22',
 needs='an int8 tensor in 0/1 coding given to the reconstruction helper',
 breaks='the array of the caller is recoded',
 edits=[(EX, '''    if np.all([y in [0, 1] for y in np.unique(X)]):
        X = 2 * X - 1

    p_init = hyperparms[0]
    lbda_init = hyperparms[1]

    orm = lom.Machine()
    data = orm.add_matrix(X, fixed=True)
''', '''    if np.all([y in [0, 1] for y in np.unique(X)]):
        X *= 2
        X -= 1

    p_init = hyperparms[0]
    lbda_init = hyperparms[1]

    orm = lom.Machine()
    data = orm.add_matrix(X, fixed=True)
''')],
 demo='''
import lom.experiments as ex
np.random.seed(0)
x = np.random.randint(0, 2, size=[3, 3, 2]).astype(np.int8)
y = x.copy()
with quiet():
    ex.tensorm_reconstruct(x, 1)
check(np.all(x == y), 'argument is left alone')
'''),

dict(id='c23-missing-disagrees', property='C23',
 needs='missing cells in the data of an XOR-NXOR layer',
 breaks='missing cells count as evidence for an entry that equals the other factor',
 edits=[(PS, '''            if (U[d, l_prime] == Z_n[l_prime]) and (l_prime != l):
                num_active += 1
            if num_active > 1:
                break

        if num_active == 0:
            score += X_n[d] * U[d, l]
''', '''            if (U[d, l_prime] == Z_n[l_prime]) and (l_prime != l):
                num_active += 1
            if num_active > 1:
                break

        if num_active == 0:
            score += 1 if X_n[d] == U[d, l] else -1
''')],
 demo='''
np.random.seed(0)
with quiet():
    m = lom.Machine()
    d = m.add_matrix(np.zeros([40, 6], dtype=np.int8), fixed=True)
    l = m.add_layer(latent_size=1, child=d, model='XOR-NXOR')
    l.u.val[:] = 1
    l.u.fixed = l.lbda.fixed = True
    l.z.bernoulli_prior = .7
    l.lbda.val = 1.
    m.infer(burn_in_min=4, burn_in_max=5, convergence_window=1, no_samples=100)
p = np.mean(l.z.trace == 1)
check(abs(p - .7) < .04, 'factors follow their prior: %f' % p)
'''),

dict(id='c24-missing-evaluated', property='C24',
 needs='missing cells in the full data',
 breaks='cells that were never observed enter the predictive accuracy',
 edits=[(EX, '''    out = layer.output(technique='factor_mean')[train_mask] > .5
    truth = (-2 * layer.invert_data + 1) * X[train_mask] == 1
''', '''    held_out = X_train == 0
    out = layer.output(technique='factor_mean')[held_out] > .5
    truth = (-2 * layer.invert_data + 1) * X[held_out] == 1
''')],
 demo='''
import lom.experiments as ex
np.random.seed(0)
x = np.ones([8, 8], dtype=np.int8)
x[:3, 4:6] = 0
train, mask = x.copy(), np.zeros([8, 8], dtype=bool)
mask[::2, 1] = True
train[mask] = 0
with quiet():
    r = ex.LOM_predictive([x, train, mask, 'OR-AND', 1, 0, 2., False], return_machine=False)
check(r[0] == 1., 'all held-out cells are predicted correctly: %f' % r[0])
'''),

dict(id='c25-member-set', property='C25',
 needs='several matrices, and different memory addresses in two runs with the same seed',
 breaks='the order in which matrices are updated depends on memory addresses',
 edits=[(MA, '''        return layer_mats + single_mats + q_mat''', '''        return list(set(layer_mats + single_mats + q_mat))''')],
 demo='''
def run():
    np.random.seed(5)
    with quiet():
        m = lom.Machine()
        d = m.add_matrix(2 * np.random.randint(0, 2, size=[6, 7, 5]).astype(np.int8) - 1, fixed=True)
        l = m.add_layer(latent_size=2, child=d, model='OR-AND')
        m.infer(burn_in_min=3, burn_in_max=5, convergence_window=2, no_samples=6)
    return m, np.concatenate([f.trace.ravel() for f in l.factors])
keep = [run()]
for i in range(12):
    keep.append([object() for j in range(997 * (i + 1))])
    r = run()
    keep.append(r)
    check(np.all(r[1] == keep[0][1]), 'the same seed gives the same samples')
'''),
]
