MU = 'lom/_numba/matrix_updates_numba.py'
LU = 'lom/_numba/lambda_updates_numba.py'
LO = 'lom/_numba/lom_outputs.py'
LF = 'lom/_numba/lom_outputs_fuzzy.py'
PS = 'lom/_numba/posterior_score_fcts.py'
MM = 'lom/_numba/max_machine_sampler.py'
AU = 'lom/auxiliary_functions.py'
EX = 'lom/experiments.py'
MA = 'lom/machine.py'
WR = 'lom/matrix_update_wrappers.py'

SEEDS = [

dict(id='c01-output-cached', property='C01',
 needs='a point estimate asked for twice, with a factor changed in place in between',
 breaks='the deterministic product of a layer is remembered by the identity of the factor arrays, which the samplers change in place',
 edits=[(MA, '''            if technique == 'point_estimate':
                out = aux.lom_generate_data_fast(
''', '''            if technique == 'point_estimate':
                out = self.product(
'''), (MA, '''    @property
    def size(self):
        return self.factors[0]''', '''    def product(self, arrays, model):
        # avoid unnecessary re-computation
        done = self.__dict__.get('computed')
        if done is None or len(done[0]) != len(arrays) or\\
                not all(a is b for a, b in zip(done[0], arrays)):
            done = (arrays, aux.lom_generate_data_fast(arrays, model))
            self.computed = done
        return done[1].copy()

    @property
    def size(self):
        return self.factors[0]''')],
 demo='''
m = lom.Machine()
d = m.add_matrix(val=np.ones([2, 2], dtype=np.int8), fixed=True)
with quiet():
    l = m.add_layer(latent_size=1, child=d, model='OR-AND')
    l.z.val = np.ones([2, 1], dtype=np.int8)
    l.u.val = np.ones([2, 1], dtype=np.int8)
    a = l.output('point_estimate')
    l.z.val[0, 0] = -1
    b = l.output('point_estimate')
check(np.all(a == 1), 'first')
check(np.array_equal(b, [[0, 0], [1, 1]]), 'product of the current factors')
'''),

dict(id='c02-certain-xor', property='C02',
 needs='four or more factors (general route), one probability equal to 1 and another strictly between 0 and 1',
 breaks='XOR of inputs of which one is certain is treated as certain',
 edits=[(AU, '''    def XOR(x):
        return np.sum(
            [np.prod(
                [1 - x[i] for i in range(len(x)) if i != j] + [x[j]])
                for j in range(len(x))])

    @jit
    def NAND(x):
        return 1 - np.prod(x)
''', '''    def XOR(x):
        # linear time, inputs that are certain would divide by zero
        if np.any(x == 1):
            return float(np.sum(x == 1) == 1)
        return np.prod(1 - x) * np.sum(x / (1 - x))

    @jit
    def NAND(x):
        return 1 - np.prod(x)
''')],
 demo='''
f = [np.array([[1., 0.]]), np.array([[.5, 0.]]), np.array([[0., 0.]]), np.array([[0., 0.]])]
with quiet():
    out = aux.lom_generate_data_fast(f, 'OR-XOR', fuzzy=True)
check(abs(float(out.ravel()[0]) - .5) < 1e-9, 'exactly one of (certain, fair coin)')
'''),

dict(id='c03-inversion-fills-missing', property='C03',
 needs='a model that needs inverted data, and missing cells in the data',
 breaks='missing cells become ones when the data is inverted',
 edits=[(AU, '''    print_placeholder''', '''''')] if False else
       [(AU, '''    # print warning for OR-NAND models.
    if model_new == 'OR-NAND':''', '''    # keep data binary
    if invert_data is True:
        child.val = np.where(child.val == -1, -1, 1).astype(child.val.dtype)

    # print warning for OR-NAND models.
    if model_new == 'OR-NAND':''')],
 demo='''
m = lom.Machine()
d = m.add_matrix(val=np.array([[1, 0], [-1, 0]], dtype=np.int8), fixed=True)
with quiet():
    l = m.add_layer(latent_size=1, child=d, model='AND-XOR')
check(l.invert_data, 'inverted')
check(np.array_equal(d(), [[-1, 0], [1, 0]]), 'missing cells stay missing')
'''),

dict(id='c05-scores-per-row', property='C05',
 needs='a factor of a three-factor layer that has a parent layer, with two free entries in one row whose predictions overlap',
 breaks='three-factor layers below another layer compute the scores of a row before the row is updated',
 edits=[(MU, '''        def sampling_fct(Z, Z_fixed, U, V, X, lbda, pa1, pa2, lbda_pa, logit_prior):
            N, L = Z.shape
            for n in prange(N):
                for l in range(L):
                    if Z_fixed[n, l] == 1:
                        continue
                    logit_score = lbda *\\
                        posterior_score_fct(Z[n, :], U, V, X[n, :], l)
                    logit_parent_score = lbda_pa *\\
                        parent_posterior_score_fct(pa1[n, :], pa2[l, :])
''', '''        def sampling_fct(Z, Z_fixed, U, V, X, lbda, pa1, pa2, lbda_pa, logit_prior):
            N, L = Z.shape
            for n in prange(N):
                Z_n = Z[n, :].copy()
                for l in range(L):
                    if Z_fixed[n, l] == 1:
                        continue
                    logit_score = lbda *\\
                        posterior_score_fct(Z_n, U, V, X[n, :], l)
                    logit_parent_score = lbda_pa *\\
                        parent_posterior_score_fct(pa1[n, :], pa2[l, :])
''')],
 demo='''
# two identical dimensions, all cells are ones: once one of them is active the other is free
np.random.seed(1)
m = lom.Machine()
d = m.add_matrix(val=np.ones([1, 1, 1], dtype=np.int8), fixed=True)
with quiet():
    l = m.add_layer(latent_size=2, child=d, model='XOR-AND')
    p = m.add_layer(latent_size=1, child=l.z, model='OR-AND')
    for x in m.members + m.lbdas:
        x.fixed = True
    for f in l.factors:
        f.val = np.ones([1, 2], dtype=np.int8)
    l.z.fixed = False
    l.lbda.val = 4.
    p.lbda.val = 0.
    m.infer(no_samples=4000, burn_in_min=10, burn_in_max=10)
q = np.mean(np.sum(l.z.trace[:, 0, :] == 1, axis=1) == 1)
# P(exactly one active) = 2 e^4 / (2 e^4 + 2 e^-4)
check(q > .95, 'exactly one of the two dimensions is active: %f' % q)
'''),

dict(id='c05-hopeless-skipped', property='C05',
 needs='an entry that is 1 although it explains much less than it costs (odds below 1e-6), in a layer with a parent layer',
 breaks='updates with extreme odds are skipped, leaving such an entry stuck in the unlikely state',
 edits=[(MU, '''                    logit_parent_score = lbda_pa *\\
                        parent_posterior_score_fct(pa1[n, :], pa2[l, :])

                    Z[n, l] = flip_metropolised_gibbs_numba(
                        logit_score + logit_parent_score + logit_prior, Z[n, l])

    elif model[-2:] == '3D':''', '''                    logit_parent_score = lbda_pa *\\
                        parent_posterior_score_fct(pa1[n, :], pa2[l, :])

                    # nothing to draw, and exp might overflow
                    if math.fabs(logit_score) > 14:
                        continue

                    Z[n, l] = flip_metropolised_gibbs_numba(
                        logit_score + logit_parent_score + logit_prior, Z[n, l])

    elif model[-2:] == '3D':''')],
 demo='''
m = lom.Machine()
d = m.add_matrix(val=-np.ones([1, 8], dtype=np.int8), fixed=True)
with quiet():
    l = m.add_layer(latent_size=1, child=d, model='OR-AND')
    p = m.add_layer(latent_size=1, child=l.z, model='OR-AND')
    for f in (l.z, l.u):
        f.val = np.ones(f().shape, dtype=np.int8)
    for x in m.members + m.lbdas:
        x.fixed = True
    l.z.fixed = False
    l.lbda.val = 3.
    m.infer(no_samples=1, burn_in_min=5, burn_in_max=5)
check(l.z()[0, 0] == -1, 'the entry leaves the unlikely state')
'''),

dict(id='c06-counts-own-shape', property='C06',
 needs='missing data in a layer whose child is itself a factor, or data with more missing cells than observed ones',
 breaks='missing cells are subtracted at most once per row when counting data points',
 edits=[(LU, '''            # correct predictions, counting 0 prediction as false
            P = counter(*[x.val for x in parm.layer.factors], parm.layer.child())
            # number of data points that are to be predicted
            ND = np.prod(parm.layer.child().shape) - np.count_nonzero(parm.layer.child() == 0)
''', '''            # correct predictions, counting 0 prediction as false
            P = counter(*[x.val for x in parm.layer.factors], parm.layer.child())
            # number of data points that are to be predicted
            missing = np.count_nonzero(parm.layer.child() == 0)
            ND = max(np.prod(parm.layer.child().shape) - missing, missing)
''')],
 demo='''
m = lom.Machine()
x = np.zeros([4, 4], dtype=np.int8)
x[0, :3] = 1
d = m.add_matrix(val=x, fixed=True)
with quiet():
    l = m.add_layer(latent_size=1, child=d, model='OR-AND')
    for f in l.factors:
        f.val = np.ones([4, 1], dtype=np.int8)
        f.fixed = True
    m.infer(no_samples=1, burn_in_min=1, burn_in_max=1)
check(abs(1 / (1 + np.exp(-l.lbda())) - 4 / 5) < 1e-6, 'three of three observed cells explained')
'''),

dict(id='c07-fixed-after-first', property='C07',
 needs='a matrix that is fixed after a first inference in the same machine, together with a second inference',
 breaks='the list of free matrices is kept from the first inference',
 edits=[(MA, '''        mats = [mat for mat in self.members if not mat.fixed]
        # sort''', '''        if len(self.members) != len(self.__dict__.get('known_members', [])):
            self.known_members = self.members
            self.free_members = [mat for mat in self.members if not mat.fixed]
        mats = self.free_members
        # sort''')],
 demo='''
np.random.seed(0)
m = lom.Machine()
d = m.add_matrix(val=2 * np.random.randint(0, 2, [6, 5]).astype(np.int8) - 1, fixed=True)
with quiet():
    l = m.add_layer(latent_size=2, child=d)
    m.infer(no_samples=2, burn_in_min=2, burn_in_max=2)
    l.u.fixed = True
    l.lbda.val, l.lbda.fixed = 0., True
    before = l.u().copy()
    m.infer(no_samples=3, burn_in_min=2, burn_in_max=2)
check(np.array_equal(before, l.u()), 'the fixed factor stays')
'''),

dict(id='c08-missing-drawn', property='C08',
 needs='data below two layers that is not fixed and has a missing (0) entry',
 breaks='missing entries of data below two layers are drawn although they are to stay missing',
 edits=[(MU, '''                    logit_parent_score_1 = lbda_pa1 *\\
                        parent_posterior_score_fct_1(pa1_1[n, :], pa1_2[l, :])

                    logit_parent_score_2 = lbda_pa2 *\\
                        parent_posterior_score_fct_2(pa2_1[n, :], pa2_2[l, :])

                    Z[n, l] = flip_metropolised_gibbs_numba(
                        logit_parent_score_1 + logit_parent_score_2 + logit_prior,
                        Z[n, l])
''', '''                    logit_parent_score_1 = lbda_pa1 *\\
                        parent_posterior_score_fct_1(pa1_1[n, :], pa1_2[l, :])

                    logit_parent_score_2 = lbda_pa2 *\\
                        parent_posterior_score_fct_2(pa2_1[n, :], pa2_2[l, :])

                    # independent of the current state
                    Z[n, l] = flip_gibbs_numba(1 / (1 + math.exp(
                        -logit_parent_score_1 - logit_parent_score_2 - logit_prior)))
''')],
 demo='''
m = lom.Machine()
d = m.add_matrix(val=np.array([[1, 0], [-1, 1]], dtype=np.int8))
with quiet():
    for k in range(2):
        m.add_layer(latent_size=1, child=d, model='OR-AND')
    m.infer(no_samples=2, burn_in_min=2, burn_in_max=2)
check(d()[0, 1] == 0, 'missing entries stay missing')
check(set(np.unique(d())) <= {-1, 0, 1}, 'values')
'''),

dict(id='c09-dispersion-lags', property='C09',
 needs='comparing the recorded dispersion of a sample with the factors of the same sample',
 breaks='the dispersion is recorded before it is updated, i.e. one iteration late',
 edits=[(MA, '''            [lbda.sampling_fct(lbda) for lbda in lbdas]
            [lbda.update_trace() for lbda in lbdas]

            if sampling_iter''', '''            for lbda in lbdas:
                lbda.update_trace()
                lbda.sampling_fct(lbda)

            if sampling_iter''')],
 demo='''
np.random.seed(0)
m = lom.Machine()
x = 2 * np.random.randint(0, 2, [7, 6]).astype(np.int8) - 1
d = m.add_matrix(val=x, fixed=True)
with quiet():
    l = m.add_layer(latent_size=2, child=d)
    m.infer(no_samples=8, burn_in_min=2, burn_in_max=2)
    for t in range(8):
        P = np.sum(aux.lom_generate_data([l.z.trace[t], l.u.trace[t]]) == x)
        p = max((P + 1) / (x.size + 2), .5)
        check(abs(1 / (1 + np.exp(-l.lbda.trace[t])) - p) < 1e-5, 'dispersion of sample %d' % t)
'''),

dict(id='c10-any-converged', property='C10',
 needs='two layers of which only one has converged at a check',
 breaks='burn-in ends as soon as the first layer has converged',
 edits=[(MA, '''                if np.all([x.check_convergence(eps=eps) for x in lbdas]):''',
 '''                if np.all([x.check_convergence(eps=eps) for x in lbdas][:1]):''')],
 demo='''
np.random.seed(0)
m = lom.Machine()
with quiet():
    d = m.add_matrix(val=np.ones([3, 3], dtype=np.int8), fixed=True)
    l1 = m.add_layer(latent_size=1, child=d)
    for f in l1.factors:
        f.val = np.ones([3, 1], dtype=np.int8)
        f.fixed = True
    e = m.add_matrix(val=2 * np.random.randint(0, 2, [30, 20]).astype(np.int8) - 1, fixed=True)
    l2 = m.add_layer(latent_size=4, child=e)
    l2.lbda.val = .01
    m.infer(no_samples=1, burn_in_min=1, burn_in_max=41, convergence_window=8, convergence_eps=1e-12)
check(m.burn_in_iters > 9, 'only the first layer has converged: %d' % m.burn_in_iters)
'''),

dict(id='c11-target-of-other-layer', property='C11',
 needs='annealing with two layers, the dispersion of the first one being fixed',
 breaks='the ramp of a layer leads up to the initial value of another layer',
 edits=[(MA, '''        pre_burn_in_iter = 0
        while True:
            # stop pre-burn-in''', '''        # layers without a free dispersion have nothing to be annealed
        if len(lbdas) != len(self.lbdas):
            annealing_targets = [lbda() for lbda in self.lbdas]
        pre_burn_in_iter = 0
        while True:
            # stop pre-burn-in'''), (MA, '''                elif self.anneal is True:
''', '''                else:
''')],
 demo='''
np.random.seed(0)
m = lom.Machine()
with quiet():
    ls = []
    for k in range(2):
        d = m.add_matrix(val=2 * np.random.randint(0, 2, [4, 4]).astype(np.int8) - 1, fixed=True)
        ls.append(m.add_layer(latent_size=1, child=d))
    ls[0].lbda.val, ls[1].lbda.val = .5, 3.
    ls[0].lbda.fixed = True
    m.anneal = True
    seen = []
    import lom.lambda_update_wrappers as w
    plain = w.get_update_fct
    w.get_update_fct = lambda p: (lambda q: seen.append(float(q.val)))
    m.infer(no_samples=1, burn_in_min=4, burn_in_max=4)
check(seen and abs(seen[0] - 3.) < 1e-6, 'ramp ends at the initial value: %s' % seen[:1])
'''),

dict(id='c12-duplicate-everywhere', property='C12',
 needs='two dimensions that agree in one factor but not in the other',
 breaks='dimensions count as duplicates only if they agree in all factors',
 edits=[(AU, '''            for f in layer.factors:
                if np.all(f()[:, l] == f()[:, l_prime]):
                    reduction_applied = True
                    cleaning_action(l_prime, layer)
''', '''            for f in layer.factors[:1]:
                if np.all([np.all(g()[:, l] == g()[:, l_prime]) for g in layer.factors]):
                    reduction_applied = True
                    cleaning_action(l_prime, layer)
''')],
 demo='''
m = lom.Machine()
d = m.add_matrix(val=np.ones([3, 3], dtype=np.int8), fixed=True)
with quiet():
    l = m.add_layer(latent_size=2, child=d)
    l.z.val = np.array([[1, 1], [1, 1], [-1, -1]], dtype=np.int8)
    l.u.val = np.array([[1, -1], [1, 1], [-1, 1]], dtype=np.int8)
    r = aux.clean_up_codes(l, reset=False, clean=True)
check(r and l.size == 1, 'one of two dimensions with an identical column goes')
'''),

dict(id='c13-mc-half', property='C13',
 needs='more than 2048 recorded samples (or averages that take more than 11 bits)',
 breaks='the sum over samples is accumulated in half precision',
 edits=[(MA, '''            elif technique == 'mc':  # TODO numba
                out = np.zeros([x().shape[0] for x in self.factors])
''', '''            elif technique == 'mc':  # TODO numba
                # samples are in {-1, 1}, save memory
                out = np.zeros([x().shape[0] for x in self.factors], dtype=np.float16)
''')],
 demo='''
m = lom.Machine()
d = m.add_matrix(val=np.ones([1, 2], dtype=np.int8), fixed=True)
with quiet():
    l = m.add_layer(latent_size=1, child=d)
    for f in l.factors:
        f.val = np.ones([f().shape[0], 1], dtype=np.int8)
        f.fixed = True
    m.infer(no_samples=3000, burn_in_min=1, burn_in_max=1)
    out = l.output('mc')
check(np.allclose(out, 1), 'every sample predicts 1: %s' % out.ravel())
'''),

dict(id='c14-clipped', property='C14',
 needs='a dispersion parameter outside [0.01, 0.99]',
 breaks='the likelihood ratios are computed with dispersions clipped to [0.01, 0.99]',
 edits=[(MM, '''            lratio_p = np.log(layer.lbda()[l1] / layer.lbda()[l2])
            lratio_m = np.log((1 - layer.lbda()[l1]) / (1 - layer.lbda()[l2]))
''', '''            p1, p2 = np.clip([layer.lbda()[l1], layer.lbda()[l2]], .01, .99)
            lratio_p = np.log(p1 / p2)
            lratio_m = np.log((1 - p1) / (1 - p2))
''')],
 demo='''
import lom._numba.max_machine_sampler as mm
m = lom.Machine()
d = m.add_matrix(val=np.ones([2, 2], dtype=np.int8), fixed=True)
with quiet():
    l = m.add_layer(latent_size=1, child=d, model='MAX-AND')
    l.z.val = l.u.val = np.ones([2, 1], dtype=np.int8)
    l.lbda.val = np.array([.998, .001])
    l.u.fixed = l.lbda.fixed = True
    d.val = np.array([[1, -1], [1, -1]], dtype=np.int8)
    np.random.seed(0)
    m.infer(no_samples=3000, burn_in_min=5, burn_in_max=5)
# odds of activity: (.998 / .001) * (.002 / .999) = 1.998
p = np.mean(l.z.trace == 1)
check(abs(p - 1.998 / 2.998) < .05, 'activity %f' % p)
'''),

dict(id='c15-baseline-unused', property='C15',
 needs='a latent dimension without any active cell (its smoothed precision is 1/2), and a baseline above the others',
 breaks='dimensions without active cells do not bound the baseline',
 edits=[(MM, '''    if parm()[-1] != np.min(parm()):
        # print('\\nClamped lambda too large. '+
        #       'Ok during burn-in, should not happen during sampling!\\n')
        parm()[-1] = np.min(parm())
''', '''    used = [l for l in range(L) if np.any(predictions[l])]
    if len(used) > 0 and parm()[-1] > np.min(parm()[used]):
        # print('\\nClamped lambda too large. '+
        #       'Ok during burn-in, should not happen during sampling!\\n')
        parm()[-1] = np.min(parm()[used])
''')],
 demo='''
m = lom.Machine()
d = m.add_matrix(val=np.ones([3, 3], dtype=np.int8), fixed=True)
with quiet():
    l = m.add_layer(latent_size=2, child=d, model='MAX-AND')
    l.z.val = np.array([[1, -1], [1, -1], [-1, -1]], dtype=np.int8)
    l.u.val = np.array([[1, -1], [1, -1], [-1, -1]], dtype=np.int8)
    l.z.fixed = l.u.fixed = True
    m.infer(no_samples=1, burn_in_min=1, burn_in_max=1)
check(l.lbda()[2] <= l.lbda()[:2].min() + 1e-9, 'baseline is the smallest: %s' % l.lbda())
'''),

dict(id='c16-shared-twice', property='C16',
 needs='a missing cell in a row that decides about new dimensions',
 breaks='missing cells count as zeros that are to be explained when new dimensions are drawn',
 edits=[(MU, '''        TN = ((X[n, :] == -1) * (np.array(n_predict) == -1)).sum()
        FN = ((X[n, :] == 1) * (np.array(n_predict) == -1)).sum()
''', '''        FN = ((X[n, :] == 1) * (np.array(n_predict) == -1)).sum()
        TN = (np.array(n_predict) == -1).sum() - FN
''')],
 demo='''
import lom._numba.matrix_updates_numba as mu
np.random.seed(0)
k = []
for t in range(1500):
    with quiet():
        Z, U = mu.sample_2d_IBP(-np.ones([1, 0], dtype=np.int8), -np.ones([6, 0], dtype=np.int8),
                                np.zeros([1, 6], dtype=np.int8), 2., .5, 1.)[:2]
    k.append(Z.shape[1])
# no data: the number of new dimensions has its truncated Poisson(1) distribution
p = np.bincount(k, minlength=3) / len(k)
check(abs(p[0] - 1 / 2.5) < .06, 'P(no new dimension) = %f' % p[0])
'''),

dict(id='c17-gamma-of-first-run', property='C17',
 needs='a machine whose threshold prior (gamma) is changed after a first inference',
 breaks='the rate of the prior of the thresholds in force at the first inference is used for good',
 edits=[(WR, '''        def q_sampler(q):
            numba_mu.sample_qL_q(
''', '''        gamma = mat.layer.gamma

        def q_sampler(q):
            numba_mu.sample_qL_q(
'''), (WR, '''                q.layer.lbda(),
                q.layer.gamma)
''', '''                q.layer.lbda(),
                gamma)
''')],
 demo='''
np.random.seed(0)
m = lom.Machine()
d = m.add_matrix(val=np.zeros([6, 4], dtype=np.int8), fixed=True)
with quiet():
    l = m.add_layer(latent_size=3, child=d, model='qL-AND')
    m.infer(no_samples=5, burn_in_min=1, burn_in_max=1)
    l.gamma = .02
    m.infer(no_samples=1000, burn_in_min=1, burn_in_max=1)
p = np.mean(l.q.trace == 1)
check(p > .9, 'thresholds without data follow their prior: P(1) = %f' % p)
'''),

dict(id='c18-recoded-in-place', property='C18',
 needs='integer 0/1 coded data given to the old balanced split',
 breaks='the caller\'s array is recoded in place',
 edits=[(AU, '''    num_of_zeros = np.prod(data.shape) * p
''', '''    num_of_zeros = np.prod(data.shape) * p
    data = np.asarray(data)
''')] if False else
       [(EX, '''    training_tensor = np.copy(tensor)
    training_tensor[mask] = 0
    test_mask = mask
''', '''    # a view is enough if nothing can be observed through it
    training_tensor = np.asarray(tensor) if not np.any(mask) else np.copy(tensor)
    training_tensor[mask] = 0
    test_mask = mask | (training_tensor == 0) if split == 1 else mask
''')],
 demo='''
import lom.experiments as ex
np.random.seed(0)
x = np.array([[1, -1, 0], [1, 1, 0]], dtype=np.int8)
with quiet():
    t, m = ex.split_train_test(x, split=0., balanced=False)
t[0, 0] = 0
check(x[0, 0] == 1, 'the training data is the caller\\'s array')
'''),

dict(id='c19-biased-twice', property='C19',
 needs='biased noise with both probabilities positive',
 breaks='ones that have been flipped are flipped again as minus ones',
 edits=[(AU, '''            if X_intern[n, d] == 1:
                p = p_plus
            if X_intern[n, d] == 0:
                continue
            elif X_intern[n, d] == -1:
                p = p_minus

            if np.random.rand() < p:
                X_intern[n, d] = -X_intern[n, d]
''', '''            if X_intern[n, d] == 1 and np.random.rand() < p_plus:
                X_intern[n, d] = -1
            if X_intern[n, d] == -1 and np.random.rand() < p_minus:
                X_intern[n, d] = 1
''')],
 demo='''
with quiet():
    y = aux.add_bernoulli_noise_2d_biased(np.ones([20, 20], dtype=np.int8), 1., 1., seed=3)
check(np.all(y == -1), 'every one is flipped with probability 1')
'''),

dict(id='c20-inverted-once', property='C20',
 needs='asking for the density of the same inverted model twice in one process',
 breaks='the inversion instructions of a model are a shared list that is overwritten by its first use',
 edits=[(AU, '''    try:
        return machine, Inv
    except:
        import pdb
        pdb.set_trace()
''', '''    # one object per kind of inversion
    Inv = inversions.setdefault((machine, tuple(Inv)), Inv)
    return machine, Inv


inversions = {}
''')],
 demo='''
with quiet():
    a = aux.expected_density('OR-AND', 3, 2, .4)
    b = aux.expected_density('OR-AND', 3, 2, .4)
p = 1 - (1 - .16)**3
check(abs(a - p) < 1e-9 and abs(b - p) < 1e-9, '%f, then %f' % (a, b))
'''),

dict(id='c21-mask-of-first-run', property='C21',
 needs='a mask of fixed entries that is replaced between two runs',
 breaks='the mask in force when the sampling function was made is used for good',
 edits=[(WR, '''            sample = numba_mu.make_sampling_fct_nochild_oneparent(p1mod)

            def LOM_sampler_hasparents(mat):
                sample(
                    mat(),
                    mat.fixed_entries,
                    *''', '''            sample = numba_mu.make_sampling_fct_nochild_oneparent(p1mod)
            fixed_entries = mat.fixed_entries

            def LOM_sampler_hasparents(mat):
                sample(
                    mat(),
                    fixed_entries,
                    *''')],
 demo='''
np.random.seed(0)
m = lom.Machine()
d = m.add_matrix(val=2 * np.random.randint(0, 2, [6, 6]).astype(np.int8) - 1)
with quiet():
    l = m.add_layer(latent_size=2, child=d)
    m.infer(no_samples=1, burn_in_min=1, burn_in_max=1)
    d.fixed_entries = np.ones([6, 6], dtype=np.int8)
    l.lbda.fixed, l.lbda.val = True, .2
    before = d().copy()
    m.infer(no_samples=4, burn_in_min=1, burn_in_max=1)
check(np.array_equal(before, d()), 'entries fixed before the second run stay')
'''),

dict(id='c22-mean-remembered', property='C22',
 needs='posterior means asked for after one run and again after a later run with the same number of samples',
 breaks='whether the mean was asked for earlier decides what is returned later',
 edits=[(MA, '''        if 'trace' in dir(self):
            return np.mean(self.trace, axis=0)
''', '''        if 'trace' in dir(self):
            if self.__dict__.get('mean_of') != (self.trace_index, self.trace.shape):
                self.trace_mean = np.mean(self.trace, axis=0)
                self.mean_of = (self.trace_index, self.trace.shape)
            return self.trace_mean
''')],
 demo='''
np.random.seed(0)
m = lom.Machine()
d = m.add_matrix(val=2 * np.random.randint(0, 2, [6, 6]).astype(np.int8) - 1, fixed=True)
with quiet():
    l = m.add_layer(latent_size=2, child=d)
    m.infer(no_samples=3, burn_in_min=1, burn_in_max=1)
    l.z.mean()
    m.infer(no_samples=3, burn_in_min=1, burn_in_max=1)
check(np.allclose(l.z.mean(), np.mean(l.z.trace, axis=0)), 'mean of the recorded samples')
'''),

dict(id='c23-empty-rows-skipped', property='C23',
 needs='a three-factor layer with a row of which every cell is missing',
 breaks='factor entries without data are left as they are instead of following their prior',
 edits=[(MU, '''        def sampling_fct(Z, Z_fixed, U, V, X, lbda, logit_prior):
            N, L = Z.shape
            for n in prange(N):
                for l in range(L):
''', '''        def sampling_fct(Z, Z_fixed, U, V, X, lbda, logit_prior):
            N, L = Z.shape
            for n in prange(N):
                if not np.any(X[n, :, :]):  # nothing to be explained
                    continue
                for l in range(L):
''')],
 demo='''
np.random.seed(0)
m = lom.Machine()
x = np.ones([2, 2, 2], dtype=np.int8)
x[1] = 0
d = m.add_matrix(val=x, fixed=True)
with quiet():
    l = m.add_layer(latent_size=1, child=d)
    l.z.bernoulli_prior = .7
    m.infer(no_samples=2000, burn_in_min=1, burn_in_max=1)
p = np.mean(l.z.trace[:, 1, 0] == 1)
check(abs(p - .7) < .06, 'entries without data follow their prior: %f' % p)
'''),

dict(id='c24-train-mask-shape', property='C24',
 needs='data with missing cells of its own in addition to the held-out ones',
 breaks='accuracy is reported over all cells missing in the training data, including those missing in the data',
 edits=[(EX, '''    out = layer.output(technique='factor_mean')[train_mask] > .5
''', '''    train_mask = X_train == 0
    out = layer.output(technique='factor_mean')[train_mask] > .5
''')],
 demo='''
import lom.experiments as ex
np.random.seed(0)
x = np.ones([8, 8], dtype=np.int8)
x[:, :3] = 0
mask = np.zeros([8, 8], dtype=bool)
mask[0, 3:6] = True
t = x.copy()
t[mask] = 0
with quiet():
    r = ex.LOM_predictive([x, t, mask, 'OR-AND', 1, 0, .1, False])
    z, u = [(f + 1) / 2 for f in r[1]]
p = np.mean(((z @ u.T)[mask] > .5) == (x[mask] == 1))
check(abs(r[0][0] - p) < 1e-9, 'accuracy on the held-out cells: %f, reported %f' % (p, r[0][0]))
'''),

dict(id='c25-ibp-empty', property='C25',
 needs='an IBP run in which a recorded sample has fewer dimensions than at the start of sampling',
 breaks='columns not in use at some sample are whatever memory contained',
 edits=[(MA, '''            self.trace = np.full([no_of_samples] +
                                 [self.val.shape[0]] +
                                 [self.val.shape[1]],
                                 dtype=self().dtype, fill_value=-1)
''', '''            self.trace = np.empty([no_of_samples] +
                                 [self.val.shape[0]] +
                                 [self.val.shape[1]],
                                 dtype=self().dtype)
''')],
 demo='''
plain = np.empty


def run(junk):
    def empty(*a, **k):
        x = plain(*a, **k)
        if x.dtype == np.int8:
            x.fill(junk)
        return x
    np.empty = empty
    np.random.seed(5)
    with quiet():
        m = lom.Machine()
        d = m.add_matrix(val=2 * np.random.randint(0, 2, [5, 4]).astype(np.int8) - 1, fixed=True)
        l = m.add_layer(latent_size=6, child=d, model='OR-AND-IBP')
        l.alpha = .5
        m.infer(no_samples=6, burn_in_min=0, burn_in_max=0)
    np.empty = plain
    return l.z.trace.copy()


check(np.array_equal(run(3), run(5)), 'samples do not depend on what memory contained')
'''),
]
