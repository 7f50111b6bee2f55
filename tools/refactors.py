#!/usr/bin/env python3
"""Behaviour-preserving edits of the code under test: none may make a check speak up.
usage: refactors.py [-j N] [SET ...] [-- CHECK ...]   (works in scratch clones of /repo)"""
import os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
M, A, X = 'lom/machine.py', 'lom/auxiliary_functions.py', 'lom/experiments.py'
MU, LU, MM = 'lom/_numba/matrix_updates_numba.py', 'lom/_numba/lambda_updates_numba.py', 'lom/_numba/max_machine_sampler.py'
W, LW, O, OF = 'lom/matrix_update_wrappers.py', 'lom/lambda_update_wrappers.py', 'lom/_numba/lom_outputs.py', 'lom/_numba/lom_outputs_fuzzy.py'
S = 'lom/_numba/posterior_score_fcts.py'


def sub(old, new, count=1):
    def f(t):
        assert t.count(old) >= 1, old
        if count:
            assert t.count(old) == count, (t.count(old), old)
        return t.replace(old, new)
    return f


def func(name, new):
    """replace a top-level function (with decorators)"""
    def f(t):
        m = re.search(r'(?m)^((?:@.*\n(?:[ \t]+.*\n)*)*)def %s\(' % re.escape(name), t)
        assert m, name
        start = m.start()
        body = t.index(':\n', m.end()) + 2
        e = re.search(r'(?m)^(?=[^\s#)])', t[body:])
        end = body + e.start() if e else len(t)
        return t[:start] + new.strip('\n') + '\n\n\n' + t[end:]
    return f


def within(start, end, new):
    """replace the text from `start` up to (not including) `end`"""
    def f(t):
        i = t.index(start)
        j = t.index(end, i)
        return t[:i] + new + t[j:]
    return f


SETS = {}

# ---------------------------------------------------------------- A: smaller steps
SETS['A'] = [
    (MU, func('flip_metropolised_gibbs_numba', '''
@jit('int8(float64, int8)', nopython=True, nogil=True)
def flip_metropolised_gibbs_numba(logit_p, z):
    """
    Metropolised Gibbs: always move if the other state is at least as likely.
    """
    advantage = -z * logit_p  # of the other state
    if advantage >= 0:
        return -z
    accept = math.exp(advantage) > np.random.rand()
    return -z if accept else z
''')),
    (MU, func('random_choice', '''
@jit('int8(float64[:])', nopython=True, nogil=True)
def random_choice(p):
    """
    Return random index according to probabilities p.
    """
    remaining = np.random.rand()
    for i, p_i in enumerate(p):
        if remaining < np.sum(p[:i + 1]):
            return np.int8(i + 1)
    return np.int8(len(p))
''')),
    (M, sub('[mat.sampling_fct(mat) for mat in np.random.permutation(mats)]', 'self._sweep(mats)', 3)),
    (M, sub('[lbda.sampling_fct(lbda) for lbda in lbdas]', 'self._update_dispersions(lbdas)', 3)),
    (M, sub('    def burn_in(self,', '''    def _sweep(self, matrices):
        """update every matrix once, in random order"""
        for index in np.random.permutation(len(matrices)):
            matrix = matrices[index]
            matrix.sampling_fct(matrix)

    def _update_dispersions(self, parameters):
        for parameter in parameters:
            parameter.sampling_fct(parameter)

    def burn_in(self,''')),
    (M, sub('''        pre_burn_in_iter = 0
        while True:
            # stop pre-burn-in if minimum numbers of burn-in iterations is reached
            if pre_burn_in_iter == burn_in_min:
                break

            pre_burn_in_iter += 1
''', '''        pre_burn_in_iter = 0
        while pre_burn_in_iter != burn_in_min:
            pre_burn_in_iter = pre_burn_in_iter + 1
''')),
    (M, sub('''        for lbda in lbdas:
            lbda.allocate_trace_arrays(convergence_window)
            lbda.trace_index = 0          # reset trace index
''', '''        self._restart_window(lbdas, convergence_window)
''')),
    (M, sub('''                        for lbda in lbdas:
                            # reallocate arrays for lbda trace
                            lbda.allocate_trace_arrays(convergence_window)
                            lbda.trace_index = 0
''', '''                        self._restart_window(lbdas, convergence_window)
''')),
    (M, sub('    def burn_in(self,', '''    @staticmethod
    def _restart_window(parameters, length):
        for parameter in parameters:
            parameter.trace_index = 0
            parameter.allocate_trace_arrays(length)

    def burn_in(self,''')),
    (M, sub('''        self.trace[self.trace_index] = self.val
        self.trace_index += 1

    def mean''', '''        position = self.trace_index
        self.trace_index = position + 1
        self.trace[position, ...] = self.val

    def mean''')),
    (M, sub('''            self.trace = np.empty([no_of_samples] +
                                  [x for x in self.val.shape],
                                  dtype=self().dtype)''', '''            self.trace = np.zeros((no_of_samples, ) + self.val.shape, dtype=self.val.dtype)''')),
    (M, sub('''        if 'trace' in dir(self):
            return np.mean(self.trace, axis=0)''', '''        if hasattr(self, 'trace'):
            return self.trace.mean(axis=0)''')),
    (M, sub('''        layer_mats = [f for layer in self.layers for f in layer.factors]
''', '''        layer_mats = []
        for layer in self.layers:
            layer_mats.extend(layer.factors)
''')),
    (A, func('add_bernoulli_noise_2d', '''
def add_bernoulli_noise_2d(X, p, seed=None):

    print('X needs to be in -1, 1 mapping!')

    if seed is None:
        seed = np.random.randint(1e4)
    np.random.seed(seed)

    noisy = X.copy()
    flip = np.random.rand(*X.shape) < p
    noisy[flip] = -noisy[flip]
    return noisy
''')),
    (A, func('add_bernoulli_noise', '''
def add_bernoulli_noise(X, p):
    flip = np.random.rand(*X.shape) < p
    if X.dtype == bool:
        return X ^ flip
    return np.where(flip, -X, X).astype(X.dtype)
''')),
    (A, func('check_convergence_single_trace', '''
def check_convergence_single_trace(trace, eps):
    middle = len(trace) // 2
    difference = expit(np.mean(trace[:middle])) - expit(np.mean(trace[middle:]))
    return bool(np.abs(difference) < eps)
''')),
    (A, func('clean_up_codes', '''
def clean_up_codes(layer, reset=True, clean=False):
    """
    Remove redundant or all-zero latent dimensions
    from layer and adjust all attributes accordingly.
    Return True, if any dimension was removed, False otherwise.
    """

    def is_inactive(l):
        return any((f()[:, l] == -1).all() for f in layer.factors)

    def is_duplicate(l, other):
        return any(np.array_equal(f()[:, l], f()[:, other]) for f in layer.factors)

    remove = not reset
    act = remove_dimension if remove else reset_dimension
    changed = False

    l = 0
    while l < layer.size:
        if is_inactive(l):
            act(l, layer)
            changed = True
            if remove:
                continue
        l += 1

    l = 0
    while l < layer.size:
        other = l + 1
        while other < layer.size:
            if is_duplicate(l, other):
                act(other, layer)
                changed = True
                if remove:
                    continue
            other += 1
        l += 1

    if changed:
        print('\\n\\tchanged latent dimensions, restart burn-in. L=' + str(layer.size))

    return changed
''')),
    (X, sub('''            mask = np.random.choice([True, False], size=(tensor.shape), p=[p, 1 - p])
        mask[tensor == 0] = False''', '''        mask = np.random.rand(*tensor.shape) < p
        mask &= tensor != 0''') if False else sub('''        mask = np.random.choice([True, False], size=(tensor.shape), p=[p, 1 - p])
        mask[tensor == 0] = False''', '''        mask = np.random.rand(*tensor.shape) < p
        mask &= tensor != 0''')),
    (X, sub('''    out = layer.output(technique='factor_mean')[train_mask] > .5
    truth = (-2 * layer.invert_data + 1) * X[train_mask] == 1
''', '''    predicted = layer.output(technique='factor_mean') > .5
    sign = -1 if layer.invert_data else 1
    out = predicted[train_mask]
    truth = (sign * X == 1)[train_mask]
''')),
]

# --------------------------------------------- B: other data structures and vectorised code
SCORES = '''
def _score_name(model):
    return 'posterior_score_' + model


def get_posterior_score_fct(model):
    name = _score_name(model)
    if not hasattr(score_fcts, name):
        raise NotImplementedError('Posterior sampling for ' + model + '.')
    return getattr(score_fcts, name)
'''
PARENTS = '''
def get_parent_score_fct(model):
    name, dim = model[:-3], model[-2:]
    suffix = '_product' if dim == '2D' else '_product_3d'
    if not hasattr(lom_outputs, name + suffix):
        raise NotImplementedError
    return getattr(lom_outputs, name + suffix)
'''
SETS['B'] = [
    (MU, func('get_posterior_score_fct', SCORES)),
    (MU, func('get_parent_score_fct', PARENTS)),
    (W, within('        # standard case: one child, no parents', '        else:\n            import pdb', '''        if mod is not None or p1mod is not None:
            if mod is None:
                sample = (numba_mu.make_sampling_fct_nochild_oneparent(p1mod) if p2mod is None else
                          numba_mu.make_sampling_fct_nochild_twoparents(p1mod, p2mod))
            elif p1mod is None:
                sample = numba_mu.make_sampling_fct_onechild(mod)
            elif p2mod is None:
                sample = numba_mu.make_sampling_fct_onechild_oneparent(mod, p1mod)
            else:
                sample = numba_mu.make_sampling_fct_onechild_twoparents(mod, p1mod, p2mod)

            def LOM_sampler(mat):
                args = [mat(), mat.fixed_entries]
                if mod is not None:
                    args += [x() for x in mat.siblings]
                    args += [mat.layer.child().transpose(transpose_order), mat.layer.lbda()]
                for parent in mat.parents[:2]:
                    args += [x() for x in parent.factors]
                    args.append(parent.lbda())
                sample(*args, np.float64(logit(mat.bernoulli_prior)))

            return LOM_sampler

''')),
    (S, func('posterior_score_OR_AND_2D', '''
def posterior_score_OR_AND_2D(Z_n, U, X_n, l):
    others = (Z_n == 1) & (np.arange(len(Z_n)) != l)
    covered = ((U == 1) & others).any(axis=1)
    return int(X_n[(U[:, l] == 1) & ~covered].astype(np.int64).sum())
''')),
    (S, func('posterior_score_XOR_AND_2D', '''
def posterior_score_XOR_AND_2D(Z_n, U, X_n, l):
    others = (Z_n == 1) & (np.arange(len(Z_n)) != l)
    active = ((U == 1) & others).sum(axis=1)
    mine = U[:, l] == 1
    X_n = X_n.astype(np.int64)
    return X_n[mine & (active == 0)].sum() - X_n[mine & (active == 1)].sum()
''')),
    (O, func('OR_AND_product', '''
def OR_AND_product(u, z):
    return np.int8(1 if np.any((u == 1) & (z == 1)) else -1)
''')),
    (O, func('XOR_NAND_product_3d', '''
def XOR_NAND_product_3d(u, z, v):
    satisfied = 0
    for i, j, k in zip(u, z, v):
        if not (i == 1 and j == 1 and k == 1):
            satisfied += 1
    return np.int8(1) if satisfied == 1 else np.int8(-1)
''')),
    (O, func('qL_AND_product', '''
def qL_AND_product(u, z, q):
    both = np.sum((u == 1) & (z == 1))
    return 1 if both >= q else -1
''')),
    (OF, func('OR_AND_product_fuzzy', '''
def OR_AND_product_fuzzy(Z_n, U_d):
    return 1 - np.prod(1 - Z_n * U_d)
''')),
    (OF, func('XOR_AND_product_fuzzy', '''
def XOR_AND_product_fuzzy(Z_n, U_d):
    none, one = 1.0, 0.0
    for p in Z_n * U_d:
        none, one = none * (1 - p), one * (1 - p) + none * p
    return one
''')),
    (MM, func('posterior_score_MAX_AND_2D', '''
def posterior_score_MAX_AND_2D(Z_n, U, X_n, l, l_sorted, lbda_ratios):
    """
    Return the change in log-likelihood caused by setting
    Z[n,l_sorted[l]] to 1, respecting explaining away dependencies.
    """
    own = l_sorted[l]
    score = 0.0
    for d, x in enumerate(X_n):
        if U[d, own] != 1 or x == 0:
            continue
        active = [k for k, m in enumerate(l_sorted) if k != l and Z_n[m] == 1 and U[d, m] == 1]
        if active and active[0] < l:
            continue
        alternative = l_sorted[active[0]] if active else U.shape[1]
        score += lbda_ratios[0 if x == 1 else 1, own, alternative]
    return score
''')),
    (MM, func('compute_lbda_ratios', '''
def compute_lbda_ratios(layer):
    """
    [2,L+1,L+1], log(lbda/lbda') and log( (1-lbda) / (1-lbda') )
    as needed for maxmachine gibbs updates.
    """
    values = np.asarray(layer.lbda(), dtype=float)
    log_p, log_m = np.log(values), np.log1p(-values)
    layer.lbda_ratios = np.stack([log_p[:, None] - log_p, log_m[:, None] - log_m])
''')),
    (MM, func('lbda_MAX_AND', '''
def lbda_MAX_AND(parm, K):
    if K != 2:
        raise NotImplementedError('Model not supported, yet.')

    z, u = [f() for f in parm.layer.factors]
    x = parm.layer.child()
    L = z.shape[1]
    unclaimed = np.ones(x.shape, dtype=bool)
    active = [np.outer(z[:, l] == 1, u[:, l] == 1) for l in range(L)]
    remaining = list(range(L))

    def precision(cells):
        tp, fp = (x[cells] == 1).sum(), (x[cells] == -1).sum()
        return (tp + 1) / (tp + fp + 2)

    while remaining:
        rates = [precision(active[l] & unclaimed) for l in remaining]
        best = remaining[int(np.argmax(rates))]
        parm.val[best] = max(rates)
        unclaimed &= ~active[best]
        remaining.remove(best)

    parm.val[-1] = precision(unclaimed)
    parm.val[-1] = parm.val.min()
    compute_lbda_ratios(parm.layer)
''')),
    (LU, sub('''            # correct predictions, counting 0 prediction as false
            P = counter(*[x.val for x in parm.layer.factors], parm.layer.child())
            # number of data points that are to be predicted
            ND = np.prod(parm.layer.child().shape) - np.count_nonzero(parm.layer.child() == 0)
            parm.val = np.max([-np.log(((ND + alpha + beta) / (float(P) + alpha)) - 1), 0])
''', '''            x = parm.layer.child()
            observed = np.count_nonzero(x)
            hits = counter(*[f() for f in parm.layer.factors], x)
            fraction = (hits + alpha) / (observed + alpha + beta)
            parm.val = max(np.log(fraction) - np.log1p(-fraction), 0.0)
''')),
    (MU, sub('''    for n in range(N):

        # how often is each dish ordered by other customers
        m = (Z[np.arange(N) != n, :] == 1).sum(axis=0)
        columns_to_keep = np.ones(L, dtype=bool)

        for l in range(L):

            # dishes that have already been ordered
            if m[l] > 0:
                # draw z[n,l] as usual
                logit_score = lbda * posterior_score_fct(
                    Z[n, :], U, X[n, :], l)
                logit_prior = logit(m[l] / N)
                Z[n, l] = flip_gibbs_numba(expit(logit_score +
                                                 logit_prior))
''', '''    for n in range(N):

        # how often is each dish ordered by other customers
        m = (Z == 1).sum(axis=0) - (Z[n, :] == 1)
        columns_to_keep = m > 0

        for l in range(L):

            # dishes that have already been ordered
            if m[l] > 0:
                # draw z[n,l] as usual
                logit_score = lbda * posterior_score_fct(
                    Z[n, :], U, X[n, :], l)
                logit_prior = np.log(m[l]) - np.log(N - m[l])
                Z[n, l] = flip_gibbs_numba(expit(logit_score +
                                                 logit_prior))
''')),
    (MU, within('            elif m[l] == 0:\n                # mark', '        # remove marked columns', '')),
    (MU, sub('''        L_new = np.random.choice(range(L_new_max), p=p_L_new)
''', '''        threshold = np.random.rand()
        L_new = 0
        while L_new < L_new_max - 1 and threshold >= np.cumsum(p_L_new)[L_new]:
            L_new += 1
''')),
    (A, func('canonise_model', '''
CANONICAL = {
    'OR-AND': ('OR-AND', False, False), 'AND-NAND': ('OR-AND', True, False),
    'OR-NOR': ('OR-AND', False, True), 'AND-OR': ('OR-AND', True, True),
    'OR-NAND': ('OR-NAND', False, False), 'AND-AND': ('OR-NAND', True, False),
    'OR-OR': ('OR-NAND', False, True), 'AND-NOR': ('OR-NAND', True, True),
    'XOR-AND': ('XOR-AND', False, False), 'XOR-NOR': ('XOR-AND', False, True),
    'NXOR-AND': ('XOR-AND', True, False), 'NXOR-NOR': ('XOR-AND', True, True),
    'XOR-NAND': ('XOR-NAND', False, False), 'XOR-OR': ('XOR-NAND', False, True),
    'NXOR-NAND': ('XOR-NAND', True, False), 'NXOR-OR': ('XOR-NAND', True, True),
    'NAND-XOR': ('NAND-XOR', False, False), 'AND-XOR': ('NAND-XOR', True, False),
    'OR-XOR': ('OR-XOR', False, False), 'NOR-XOR': ('OR-XOR', True, False),
    'XOR-NXOR': ('XOR-NXOR', False, False), 'NXOR-NXOR': ('XOR-NXOR', True, False),
    'XOR-XOR': ('XOR-XOR', False, False), 'NXOR-XOR': ('XOR-XOR', True, False),
    'MAX-AND': ('MAX-AND', False, False), 'OR-AND-IBP': ('OR-AND-IBP', False, False),
    'qL-AND': ('qL-AND', False, False)}


def canonise_model(model, child):
    try:
        model_new, invert_data, invert_factors = CANONICAL[replace_equivalent_model(model)]
    except KeyError:
        raise NotImplementedError("Model not implemented.")
    if invert_data:
        child.val = -child.val
    print('\\n' + model + ' is treated as ' + model_new)
    return model_new, invert_data, invert_factors
''')),
    (A, func('replace_equivalent_model', '''
def replace_equivalent_model(model, equivalent_pairs=None):
    flip = {'OR': 'NOR', 'NOR': 'OR', 'AND': 'NAND', 'NAND': 'AND', 'XOR': 'NXOR', 'NXOR': 'XOR'}
    dual = {'NAND': 'OR', 'NOR': 'AND', 'AND': 'NOR', 'OR': 'NAND'}
    if equivalent_pairs is not None:
        for left, right in equivalent_pairs:
            if right == model:
                return left
        return model
    preferred = ['OR-AND', 'OR-NOR', 'AND-OR', 'AND-NAND', 'OR-OR', 'OR-NAND', 'AND-AND', 'AND-NOR',
                 'NAND-XOR', 'AND-XOR', 'OR-XOR', 'NOR-XOR']
    if model in preferred or model.count('-') != 1:
        return model
    outer, inner = model.split('-')
    if outer in dual and inner in flip:
        return dual[outer] + '-' + flip[inner]
    return model
''')),
]

# ------------------------------------------------------------ C: other structure
SETS['C'] = [
    # updates are looked up, not stored
    (M, sub('''        for mat in mats:
            mat.sampling_fct = mat_wrappers.get_sampling_fct(mat)
        for lbda in lbdas:
            lbda.sampling_fct = lbda_wrappers.get_update_fct(lbda)
''', '''        for member, assign in [(mat, mat_wrappers.get_sampling_fct) for mat in mats] + \\
                [(lbda, lbda_wrappers.get_update_fct) for lbda in lbdas]:
            setattr(member, 'sampling_fct', assign(member))
''')),
    (M, sub('[mat.sampling_fct(mat) for mat in np.random.permutation(mats)]', '''order = list(range(len(mats)))
            np.random.shuffle(order)
            for position in order:
                mats[position].sampling_fct(mats[position])''', 3)),
    (M, sub('''        # set all parameters to MAP estimate
''', '''        self._finished = True
        # set all parameters to MAP estimate
''')),
    (M, sub('''            if technique == 'point_estimate':
                out = aux.lom_generate_data_fast(
                    [x() for x in self.factors], model)
                out = (1 + out) * .5  # map to probability of emitting a 1
''', '''            if technique == 'point_estimate':
                out = np.asarray(aux.lom_generate_data_fast(
                    [x() for x in self.factors], model) == 1, dtype=float)
''')),
    (M, sub('''                for t in range(self.no_samples):
                    out += aux.lom_generate_data_fast([x.sample(t)
                                                       for x in self.factors],
                                                      model)
                out /= self.no_samples
                out = (1 + out) * .5  # map to probability of emitting a 1
''', '''                count = self.no_samples
                for t in range(count):
                    sampled = aux.lom_generate_data_fast([x.sample(t) for x in self.factors], model)
                    out += sampled == 1
                out = out / count
''')),
    (M, sub('''                out = out * aux.expit(self.lbda.mean()) +\\
                    (1 - out) * aux.expit(-self.lbda.mean())
''', '''                s = aux.expit(self.lbda.mean())
                out = (1 - s) + out * (2 * s - 1)
''')),
    (M, sub('''        self.prediction = out

        if map_to_probabilities is True:
            return out
        else:
            return 2 * out - 1
''', '''        self.prediction = out
        return self._coded(out, map_to_probabilities)

    @staticmethod
    def _coded(out, as_probabilities):
        return out if as_probabilities is True else 2 * out - 1
''')),
    (M, sub('''        # allocate memory to save samples
        print('allocating memory to save samples...')
        for mat in mats:
            if mat.model == 'OR-AND-IBP':
                mat.allocate_trace_arrays_IBP(no_samples)
            else:
                mat.allocate_trace_arrays(no_samples)
        for lbda in lbdas:
            lbda.allocate_trace_arrays(no_samples)
''', '''        # allocate memory to save samples
        for x in mats + lbdas:
            grows = getattr(x, 'model', None) == 'OR-AND-IBP'
            allocate = x.allocate_trace_arrays_IBP if grows else x.allocate_trace_arrays
            allocate(no_samples)
''')),
    (M, sub('''        elif type(val) is float:
            self.val = 2 * np.array(np.random.rand(*shape) > val,
                                    dtype=np.int8) - 1
        else:
            self.val = 2 * np.array(np.random.rand(*shape) > .5,
                                    dtype=np.int8) - 1
''', '''        else:
            level = val if type(val) is float else .5
            active = np.random.rand(*shape) > level
            self.val = np.where(active, 1, -1).astype(np.int8)
''')),
    (MU, sub('''    if model[-2:] == '2D':
        @jit('void(int8[:,:], int8[:,:], int8[:,:], int8[:,:],'
             'float64, float64)',
             nogil=True, nopython=True, parallel=True)
        def sampling_fct(Z, Z_fixed, U, X, lbda, logit_prior):
            N, L = Z.shape
            for n in prange(N):
                for l in range(L):
                    if Z_fixed[n, l] == 1:
                        continue
                    logit_score = lbda *\\
                        posterior_score_fct(Z[n, :], U, X[n, :], l)
                    Z[n, l] = flip_metropolised_gibbs_numba(
                        logit_score + logit_prior, Z[n, l])
''', '''    if model[-2:] == '2D':
        def sampling_fct(Z, Z_fixed, U, X, lbda, logit_prior):
            # columns outside: the entries of one column are independent given the rest
            for l in range(Z.shape[1]):
                for n in range(Z.shape[0]):
                    if Z_fixed[n, l] != 1:
                        score = posterior_score_fct(Z[n, :], U, X[n, :], l)
                        Z[n, l] = flip_metropolised_gibbs_numba(lbda * score + logit_prior, Z[n, l])
''')),
    (LW, sub('''        def MAX_AND_2D_lbda(parm):
            mm_sampler.lbda_MAX_AND(parm, K=2)
        return MAX_AND_2D_lbda
''', '''        return lambda parm: mm_sampler.lbda_MAX_AND(parm, K=2)
''')),
    (LU, func('get_scalar_output_function_2d', '''
def _scalar_output(model, fuzzy, suffix):
    module = lom_outputs_fuzzy if fuzzy else lom_outputs
    name = model.replace('-', '_') + ('_product_fuzzy' if fuzzy else '_product') + suffix
    return getattr(module, name)


def get_scalar_output_function_2d(model, fuzzy=False):
    return _scalar_output(model, fuzzy, '')
''')),
    (LU, func('get_scalar_output_function_3d', '''
def get_scalar_output_function_3d(model, fuzzy=False):
    return _scalar_output(model, fuzzy, '_3d')
''')),
    (A, func('lom_generate_data_fast', '''
def lom_generate_data_fast(factors, model='OR-AND', fuzzy=False):
    """
    Factors and generated data are in [-1,1] mapping.
    """
    if model not in implemented_loms() or len(factors) not in (2, 3):
        return lom_generate_data_general(factors, model, fuzzy)
    dtype = np.float64 if fuzzy else np.int8
    name = 'make_output_function_%dd%s' % (len(factors), '_fuzzy' if fuzzy else '')
    make = getattr(lambda_updates_numba, name)
    return make(model)(*[np.array(f, dtype=dtype) for f in factors])
''')),
    (A, func('get_lop', '''
def get_lop(name='OR'):
    def count(x):
        return np.count_nonzero(np.asarray(x) == 1)

    lops = {'OR': lambda x: count(x) >= 1, 'NOR': lambda x: count(x) == 0,
            'AND': lambda x: count(x) == len(x), 'NAND': lambda x: count(x) < len(x),
            'XOR': lambda x: count(x) == 1, 'NXOR': lambda x: count(x) != 1}
    if name not in lops:
        raise ValueError('Logical operator not defined.')
    return lops[name]
''')),
    (A, sub('''    # set same number applicable/non-applicable unobserved
    if True:
        true_index_pairs = [x for x in index_pairs if data[x] == 1]
        false_index_pairs = [x for x in index_pairs if data[x] == -1]
        true_random_idx = np.random.choice(range(len(true_index_pairs)),
                                           int(num_of_zeros / 2), replace=False)
        false_random_idx = np.random.choice(range(len(false_index_pairs)),
                                            int(num_of_zeros / 2), replace=False)
        zero_idx = [true_index_pairs[i] for i in true_random_idx] + [false_index_pairs[i]
                                                                     for i in false_random_idx]
''', '''    # set same number applicable/non-applicable unobserved
    zero_idx = []
    for value in (1, -1):
        candidates = [x for x in index_pairs if data[x] == value]
        chosen = np.random.choice(len(candidates), size=int(num_of_zeros / 2), replace=False)
        zero_idx.extend(candidates[i] for i in chosen)
''')),
    (A, func('remove_dimension', '''
def remove_dimension(l_prime, layer):
    for f in layer.factors:
        keep = np.arange(f().shape[1]) != l_prime
        f.val, f.fixed_entries = f.val[:, keep], f.fixed_entries[:, keep]
        for parent in f.parents:
            remove_row(parent.u, l_prime)
    if layer.model == 'MAX-AND':
        layer.lbda.val = np.concatenate([layer.lbda.val[:l_prime], layer.lbda.val[l_prime + 1:]])
''')),
    (A, func('generate_orm_product', '''
def _disjoint_columns_mat(K, L):
    mat = np.array(np.random.rand(K, L) > .5, dtype=np.int8)
    while not all_columsn_are_disjoint(mat):
        mat = np.array(np.random.rand(K, L) > .5, dtype=np.int8)
    return mat


def generate_orm_product(N=100, D=20, L=3):
    """
    Generate random matrix U, Z and their Boolean product X.
    returns: U, Z, X in {-1, 1} representation.
    """
    U = _disjoint_columns_mat(D, L)
    Z = _disjoint_columns_mat(N, L)
    X = np.where(Z @ U.T > 0, 1, -1).astype(np.int8)
    return 2 * U - 1, 2 * Z - 1, X
''')),
    (A, func('expected_density', '''
def expected_density(model, L, K, f):
    outer, inner = model.split('-')

    def combine(op, p, n):
        q = 1 - p
        value = {'AND': p ** n, 'OR': 1 - q ** n, 'XOR': n * p * q ** (n - 1)}
        return 1 - value[op[1:]] if op[0] == 'N' else value[op]

    return combine(outer, combine(inner, f, K), L)
''')),
    (X, sub('''    experiment_parms = []
    for machine in machines:
        for L_init in L_inits:
            for random_idx in random_idxs:
                experiment_parms.append(
                    [X, X_train, train_mask, machine, L_init,
                     random_idx, lbda_init, anneal])
''', '''    import itertools
    experiment_parms = [[X, X_train, train_mask, machine, L_init, random_idx, lbda_init, anneal]
                        for machine, L_init, random_idx in itertools.product(machines, L_inits, random_idxs)]
''')),
]

# ------------------------------------------- D: updates kept by the machine, other traces
SETS['D'] = [
    (M, sub('''        for mat in mats:
            mat.sampling_fct = mat_wrappers.get_sampling_fct(mat)
        for lbda in lbdas:
            lbda.sampling_fct = lbda_wrappers.get_update_fct(lbda)
''', '''        self._updates = {}
        for mat in mats:
            self._updates[id(mat)] = mat_wrappers.get_sampling_fct(mat)
        for lbda in lbdas:
            self._updates[id(lbda)] = lbda_wrappers.get_update_fct(lbda)
''')),
    (M, sub('[mat.sampling_fct(mat) for mat in np.random.permutation(mats)]',
            '[self._updates[id(mat)](mat) for mat in np.random.permutation(mats)]', 3)),
    (M, sub('[lbda.sampling_fct(lbda) for lbda in lbdas]',
            '[self._updates[id(lbda)](lbda) for lbda in lbdas]', 3)),
    (MU, sub('''        if math.exp(-z * logit_p) > np.random.rand():
            return -z
        else:
            return z
''', '''        if np.log(np.random.rand()) < -z * logit_p:
            return -z
        else:
            return z
''')),
    (MU, func('flip_gibbs_numba', '''
def flip_gibbs_numba(p):
    u = np.random.uniform(0, 1)
    return np.int8(1 - 2 * (u >= p))
''')),
]

# ------------------------------------------------ E: comments and statements without effect
def noop(t):
    """a statement that does nothing at every place where a block starts"""
    import ast
    lines = t.split('\n')
    at = {}
    for node in ast.walk(ast.parse(t)):
        for part in ('body', 'orelse'):
            b = getattr(node, part, None)
            if isinstance(b, list) and b and not isinstance(node, ast.Module):
                s = b[0]
                if part == 'orelse' and isinstance(s, ast.If):
                    continue                    # elif
                if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant) and len(b) > 1:
                    s = b[1]                    # after a docstring
                if part == 'body' and s.lineno == node.lineno:
                    continue
                d = getattr(s, 'decorator_list', None)
                at[(d[0].lineno if d else s.lineno) - 1] = s.col_offset
    for i in sorted(at, reverse=True):
        lines.insert(i, ' ' * at[i] + 'None')
    return '\n'.join(lines) + '\n# a comment\n'


SETS['E'] = [(f, noop) for f in (M, A, X, MU, LU, MM, W, LW, O, OF, S)]

# ---------------------------------------------------------------- F: tables, displays, experiments, bookkeeping
SETS['F'] = [
    (A, func('get_lom_class', '''
_CLASSES = {
    'AND-AND': {'AND-AND': '000', 'NOR-NAND': '000', 'AND-NOR': '001', 'NOR-OR': '001',
                'OR-NAND': '100', 'NAND-AND': '100', 'OR-OR': '101', 'NAND-NOR': '101',
                'AND-NAND': '010', 'NOR-AND': '010', 'AND-OR': '011', 'NOR-NOR': '011',
                'OR-AND': '110', 'NAND-NAND': '110', 'OR-NOR': '111', 'NAND-OR': '111'},
    'XOR-AND': {'XOR-AND': '000', 'XOR-NOR': '001', 'NXOR-AND': '100', 'NXOR-NOR': '101',
                'XOR-NAND': '010', 'XOR-OR': '011', 'NXOR-NAND': '110', 'NXOR-OR': '111'},
    'AND-XOR': {'AND-XOR': '000', 'NOR-NXOR': '000', 'OR-NXOR': '100', 'NAND-XOR': '100',
                'AND-NXOR': '010', 'NOR-XOR': '010', 'OR-XOR': '110', 'NAND-NXOR': '110'},
    'XOR-XOR': {'XOR-XOR': '000', 'NXOR-XOR': '100', 'XOR-NXOR': '010', 'NXOR-NXOR': '110'}}


def get_lom_class(machine):
    """
    Corresponding class and list of inversions: outer, hidden, inner
    """
    for cls, names in _CLASSES.items():
        if machine in names:
            return cls, [bit == '1' for bit in names[machine]]
    raise KeyError(machine)
''')),
    (A, func('canonical_loms', '''
def canonical_loms(level='clans', mode='implemented'):
    table = {('clans', 'implemented'):
             'OR-AND OR-NAND OR-XOR NAND-XOR XOR-NAND XOR-AND XOR-NXOR XOR-XOR',
             ('rest', 'implemented'):
             'NOR-AND NOR-NAND NOR-XOR AND-XOR NXOR-NAND NXOR-AND NXOR-NXOR NXOR-XOR',
             ('clans', 'canonical'):
             'AND-AND AND-NAND XOR-AND XOR-NAND AND-XOR AND-NXOR XOR-XOR XOR-NXOR',
             ('rest', 'canonical'):
             'OR-NAND OR-AND NXOR-AND NXOR-NAND OR-NXOR OR-XOR NXOR-XOR NXOR-NXOR'}
    if mode not in ('implemented', 'canonical') or level not in ('clans', 'families'):
        raise ValueError
    loms = table['clans', mode].split()
    if level == 'families':
        loms = loms + table['rest', mode].split()
    return loms
''')),
    (A, func('factor_density', '''
def factor_density(machine, L, K, X):
    """
    X is the desired expected data density
    returns the corresponding factor density
    """
    from scipy.optimize import brentq

    def excess(t):
        return float(expected_density(machine, L, K, f=float(t)) - X)

    grid = np.linspace(0, 1, 2001)
    values = np.array([excess(t) for t in grid])
    candidates = [grid[np.argmin(np.abs(values))]]
    for i in np.nonzero(values[:-1] * values[1:] < 0)[0]:
        candidates.append(brentq(excess, grid[i], grid[i + 1], xtol=1e-13))
    # where the density does not cross, refine around its closest point
    from scipy.optimize import minimize_scalar
    i = int(np.argmin(np.abs(values)))
    res = minimize_scalar(lambda t: abs(excess(t)), method='bounded', options=dict(xatol=1e-12),
                          bounds=(grid[max(i - 1, 0)], grid[min(i + 1, 2000)]))
    candidates.append(res.x)
    best = min(candidates, key=lambda t: abs(excess(t)))
    if abs(excess(best)) > 1e-6:
        print('Solution does not exist. Returning closest value.')
    return best
''')),
    (A, func('add_bernoulli_noise_2d_biased', '''
def add_bernoulli_noise_2d_biased(X, p_plus, p_minus, seed=None):
    """Flip ones with probability p_plus and others with p_minus"""
    X_intern = X.copy()
    if seed is not None:
        np.random.seed(seed)
    draws = np.random.rand(*X.shape)
    threshold = np.where(X == 1, p_plus, np.where(X == -1, p_minus, 0))
    X_intern[draws < threshold] *= -1
    return X_intern
''')),
    (A, func('boolean_tensor_product', '''
def boolean_tensor_product(Z, U, V):
    """Boolean product of matrices of trues and falses."""
    Z, U, V = [np.asarray(f) == 1 for f in (Z, U, V)]
    return np.einsum('nl,dl,ml->ndm', Z.astype(int), U.astype(int), V.astype(int)) > 0
''')),
    (A, func('intersect_dataframes', '''
def intersect_dataframes(A, B):
    """rows and columns that both dataframes have, rows in order"""
    rows = sorted(set(A.index) & set(B.index))
    cols = [c for c in A.columns if c in set(B.columns)]
    A, B = A.loc[rows, cols], B.loc[rows, cols]
    print('shape of both: %s' % (A.shape,))
    return A, B
''')),
    (A, func('find_centers_of_ordered_list', '''
def find_centers_of_ordered_list(ls):
    """middle of every run"""
    runs = {}
    for i, x in enumerate(ls):
        runs.setdefault(x, []).append(i)
    return [int((r[0] + r[-1]) // 2) for r in runs.values()]
''')),
    (A, func('unique_ordered', '''
def unique_ordered(seq):
    """distinct entries in order of their first occurrence"""
    return list(dict.fromkeys(seq))
''')),
    (A, func('check_binary_coding', '''
def check_binary_coding(data):
    """data in the [-1, 1] coding"""
    if -1 in np.unique(data):
        return np.array(data, dtype=np.int8)
    return np.array(2 * np.array(data, dtype=np.int8) - 1, dtype=np.int8)
''')),
    (A, sub('''    if np.any(mat < 0):
        print('rescaling matrix to probabilities')
        mat = .5 * (mat + 1)
''', '''    if np.min(mat) < 0:
        mat = (np.asarray(mat, dtype=float) + 1) / 2
''', 2)),
    (M, within('    @property\n    def siblings', '    def set_to_map', '''    @property
    def siblings(self):
        # the layer keeps its factors in the order of their child axes
        return [f for f in self.layer.factors if f is not self]

''')),
    (M, within('    @property\n    def members', '    @property\n    def lbdas', '''    @property
    def members(self):
        """
        Return all matrices from within and outside of layers
        """
        mats = []
        for layer in self.layers:
            mats.extend(layer.factors)
        mats.extend(self.matrices)
        for layer in self.layers:
            if layer.model == 'qL-AND':
                mats.append(layer.q)
        return mats

''')),
    (M, within('    def set_to_map', 'class MachineLayer', '''    def set_to_map(self):
        if self.layer is not None and all(self is not f for f in self.layer.factors):
            if hasattr(self, 'trace'):
                for d, counts in enumerate(self.trace[:, 0, :].T):
                    self.val[0, d] = np.bincount(counts).argmax()
            return
        likely = self.mean() > 0
        mode = np.where(likely, 1, -1).astype(np.int8)
        if (self.val == 0).any():
            mode[self.val == 0] = 0
        self.val = mode
        wide = self.val.shape[1] - self.fixed_entries.shape[1]
        if wide > 0:
            added = np.zeros([len(self.val), wide], dtype=np.int8)
            self.fixed_entries = np.hstack([self.fixed_entries, added])


''')),
    (M, within('    def mean(self):', '    def sample(self', '''    def mean(self):
        trace = getattr(self, 'trace', None)
        if trace is None:  # no samples, return current state
            return self()
        return trace.sum(axis=0, dtype=np.float64) / len(trace)

''')),
    (M, within('        # stop if minimum', '            # print diagnostics', '') if False else
     sub('''        while True:
            # stop pre-burn-in if minimum numbers of burn-in iterations is reached
            if pre_burn_in_iter == burn_in_min:
                break

            pre_burn_in_iter += 1
''', '''        for pre_burn_in_iter in range(1, burn_in_min + 1):
''')),
    (M, sub('''                    for lbda, target in zip(lbdas, annealing_targets):
                        lbda.val = target * (pre_burn_in_iter / burn_in_min)
''', '''                    progress = pre_burn_in_iter / burn_in_min
                    for i in range(len(lbdas)):
                        lbdas[i].val = annealing_targets[i] * progress
''')),
    (X, func('parallel_function', '''
def parallel_function(f):
    def run(sequence):
        """ apply f to all elements, without those that give nothing """
        return [x for x in map(f, sequence) if x is not None]
    return run
''')),
    (X, sub('''        mask = np.random.choice([True, False], size=(tensor.shape), p=[p, 1 - p])
        mask[tensor == 0] = False
''', '''        mask = (np.random.random_sample(tensor.shape) < p) & (tensor != 0)
''')),
    (X, within('        # select indices for positives', '    training_tensor', '''        # mark the same number of positives and negatives
        mask = np.zeros(tensor.shape, dtype=bool)
        for value in (1, -1):
            candidates = np.flatnonzero(tensor == value)
            chosen = np.random.permutation(candidates)[:S]
            if len(chosen) < S:
                raise ValueError('not enough entries')
            mask.flat[chosen] = True

''')),
    (X, sub('''    for machine in machines:
        for L_init in L_inits:
            for random_idx in random_idxs:
                experiment_parms.append(
                    [X, X_train, train_mask, machine, L_init,
                     random_idx, lbda_init, anneal])
''', '''    import itertools
    for machine, L_init, random_idx in itertools.product(machines, L_inits, random_idxs):
        experiment_parms.append(
            [X, X_train, train_mask, machine, L_init,
             random_idx, lbda_init, anneal])
''')),
    (W, sub('''        transpose_order = tuple(
            [mat.child_axis] +
            [s.child_axis for s in mat.siblings])
''', '''        axes = [f.child_axis for f in [mat] + mat.siblings]
        transpose_order = tuple(axes)
''')),
    (W, within('    parent1_model = None', '# Following functions', '''    names = []
    if mat.parents[2:]:
        raise NotImplementedError("More than two parents are not supported.")
    for parent in mat.parents:
        if len(parent.factors) != 2:
            raise AssertionError("parents are two-dimensional")
        names.append(parent.model.replace('-', '_') + '_2D')
    parent1_model, parent2_model = (names + [None, None])[:2]

    return model, parent1_model, parent2_model


''')),
]


ENV = dict(os.environ, NUMBA_DISABLE_JIT='1', PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg', OPENBLAS_NUM_THREADS='1')


def tree(name):
    d = tempfile.mkdtemp(prefix='ref_%s_' % name)
    subprocess.run(['git', 'clone', '-q', '/repo', d + '/r'], check=True)
    for f, edit in SETS[name]:
        p = d + '/r/' + f
        t = open(p).read()
        n = edit(t)
        assert n != t, (name, f)
        open(p, 'w').write(n)
        compile(n, f, 'exec')
    return d


def main():
    args = sys.argv[1:]
    j = 2
    if '-j' in args:
        i = args.index('-j')
        j = int(args[i + 1])
        del args[i:i + 2]
    checks = []
    if '--' in args:
        checks = args[args.index('--') + 1:]
        args = args[:args.index('--')]
    names = args or sorted(SETS)
    checks = checks or ['C%02d' % i for i in range(1, 29)]

    def run(d, name, c):
        r = subprocess.run(['python3', VERIF + '/check.py', c], cwd=VERIF, capture_output=True, text=True,
                           env=dict(ENV, LOM_REPO=d + '/r', VERIF_TIER='quick', VERIF_SEED='1'))
        lines = [l for l in (r.stdout + r.stderr).split('\n') if l.strip()]
        flag = 'ok' if r.returncode == 0 else 'ALARM rc=%d' % r.returncode
        print(name, c, flag, (lines[-1] if lines else '')[:160], flush=True)
        if r.returncode:
            print('\n'.join('    ' + l[:220] for l in lines[:6]), flush=True)
    for name in names:
        d = tree(name)
        try:
            with ThreadPoolExecutor(j) as ex:
                list(ex.map(lambda c: run(d, name, c), checks))
        finally:
            shutil.rmtree(d)


if __name__ == '__main__':
    main()
