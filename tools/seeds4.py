MU = 'lom/_numba/matrix_updates_numba.py'
AU = 'lom/auxiliary_functions.py'
MA = 'lom/machine.py'
MW = 'lom/matrix_update_wrappers.py'

STOP = '''
import os
ROOT = os.path.dirname(os.path.abspath(lom.__file__))


class Stop(KeyboardInterrupt):
    pass


def stopping(fn, name, k):
    """run fn, interrupted at the k-th call of the function of that name"""
    left = [k]

    def tr(frame, what, arg):
        if frame.f_code.co_name == name and frame.f_code.co_filename.startswith(ROOT):
            left[0] -= 1
            if left[0] == 0:
                raise Stop()
    sys.settrace(tr)
    try:
        fn()
        return False
    except Stop:
        return True
    finally:
        sys.settrace(None)


def machine():
    m = lom.Machine()
    x = np.array([[1, -1, 1], [-1, 1, 1], [1, 1, -1], [-1, -1, 1]], dtype=np.int8)
    d = m.add_matrix(val=x, fixed=True)
    ly = m.add_layer(latent_size=2, child=d, model='OR-AND')
    return m, ly
'''

SEEDS = [

dict(id='c29-index-after', property='C29',
 needs='an inference interrupted while samples are drawn, and another inference afterwards',
 breaks='positions in the traces are reset at the end of an inference only, so one after an interruption continues in the middle of its traces',
 edits=[(MA, '''        for mat in mats:
            mat.trace_index = 0
        for lbda in lbdas:
            if lbda is not None:
                lbda.trace_index = 0

        # samples of members''', '''        # samples of members'''),
        (MA, '''        # some sanity checks
        for layer in self.layers:
''', '''        # ready for the next inference
        for x in mats + lbdas:
            x.trace_index = 0

        # some sanity checks
        for layer in self.layers:
''')],
 demo=STOP + '''
np.random.seed(1)
m, ly = machine()
with quiet():
    check(stopping(lambda: m.infer(no_samples=6, burn_in_min=1, burn_in_max=2, convergence_window=3), 'update_trace', 8), 'not interrupted')
    try:
        m.infer(no_samples=6, burn_in_min=1, burn_in_max=2, convergence_window=3)
        ok = True
    except IndexError:
        ok = False
check(ok, 'inference after an interrupted one')
check(ly.z.trace.shape[0] == 6 and np.array_equal(ly.z.trace[5], ly.z.val), 'samples')
'''),

dict(id='c29-held-by-fixing', property='C29',
 needs='an inference interrupted while the dispersions are held, and what is declared fixed afterwards',
 breaks='dispersions are held by declaring them fixed for the time being; an interruption leaves them fixed for good',
 edits=[(MA, '''        pre_burn_in_iter = 0
        while True:
''', '''        pre_burn_in_iter = 0
        for lbda in lbdas:
            lbda.fixed = fix_lbda_iters > 0
        while True:
'''), (MA, '''            # update lambda
            if pre_burn_in_iter > fix_lbda_iters:
''', '''            # update lambda
            if pre_burn_in_iter > fix_lbda_iters:
                for lbda in lbdas:
                    lbda.fixed = False
'''), (MA, '''        # allocate array for lambda traces for burn in detection
        for lbda in lbdas:
''', '''        # allocate array for lambda traces for burn in detection
        for lbda in lbdas:
            lbda.fixed = False
''')],
 demo=STOP + '''
np.random.seed(1)
m, ly = machine()
with quiet():
    check(stopping(lambda: m.infer(no_samples=2, burn_in_min=9, burn_in_max=12, convergence_window=3, fix_lbda_iters=8), 'LOM_sampler', 5), 'not interrupted')
check(ly.lbda.fixed is False, 'the dispersion is not fixed')
start = ly.lbda()
with quiet():
    m.infer(no_samples=2, burn_in_min=1, burn_in_max=2, convergence_window=3)
check(ly.lbda.trace.shape[0] == 2 and ly.lbda() != start, 'the dispersion is inferred')
'''),

dict(id='c29-goal-kept', property='C29',
 needs='an annealed inference that is interrupted, a new dispersion, and another annealed inference',
 breaks='the value annealing leads up to is kept on the parameter until it is reached, so an inference after an interrupted one leads to the old value',
 edits=[(MA, '''        pre_burn_in_iter = 0
        while True:
''', '''        pre_burn_in_iter = 0
        if self.anneal is True:
            # not beyond what has been asked for first
            for k, lbda in enumerate(lbdas):
                lbda.goal = annealing_targets[k] = getattr(lbda, 'goal', annealing_targets[k])
        while True:
'''), (MA, '''        for lbda in lbdas:
            lbda.allocate_trace_arrays(convergence_window)
            lbda.trace_index = 0          # reset trace index
''', '''        for lbda in lbdas:
            lbda.__dict__.pop('goal', None)
            lbda.allocate_trace_arrays(convergence_window)
            lbda.trace_index = 0
''')],
 demo=STOP + '''
np.random.seed(1)
m, ly = machine()
m.anneal = True
ly.lbda.val = 2.
seen = []
with quiet():
    check(stopping(lambda: m.infer(no_samples=1, burn_in_min=6, burn_in_max=6, convergence_window=3), 'LOM_sampler', 5), 'not interrupted')
    ly.lbda.val = 1.
    ly.z.sampling_fct = None
    import lom.matrix_update_wrappers as w
    old = w.get_sampling_fct

    def get(mat):
        f = old(mat)

        def g(mat):
            seen.append(float(ly.lbda()))
            return f(mat)
        return g
    w.get_sampling_fct = get
    m.infer(no_samples=1, burn_in_min=4, burn_in_max=4, convergence_window=3)
check(max(seen[:8]) <= 1.0 + 1e-9, 'annealing leads up to the value it was started with: %s' % seen[:8])
'''),

dict(id='c28-rescaled-in-place', property='C28',
 needs='an array of floats with negative entries that is displayed, and its entries afterwards',
 breaks='displaying an array of floats rescales the array itself',
 edits=[(AU, '''    if np.any(mat < 0):
        print('rescaling matrix to probabilities')
        mat = .5 * (mat + 1)

    try:
        import seaborn as sns

        if cmap is None:
''', '''    if np.any(mat < 0):
        print('rescaling matrix to probabilities')
        mat = np.asarray(mat, dtype=float)
        mat += 1
        mat *= .5

    try:
        import seaborn as sns

        if cmap is None:
''')],
 demo='''
import matplotlib.pyplot as plt
x = np.array([[1., -1.], [-1., 1.]])
y = np.array([[1, -1], [-1, 1]], dtype=np.int8)
with quiet():
    aux.plot_matrix(x)
    aux.plot_matrix(y)
check(np.array_equal(x, y), 'the array displayed is not changed')
'''),

dict(id='c28-columns-renamed', property='C28',
 needs='two tables with the same columns in different orders',
 breaks='the columns shared by two tables are picked by a mask and the second table takes the names of the first, whatever its order',
 edits=[(AU, '''    A = A[list(joint_cols)]
    B = B[list(joint_cols)]
''', '''    A = A.loc[:, A.columns.isin(joint_cols)]
    B = B.loc[:, B.columns.isin(joint_cols)]
    B.columns = A.columns
''')],
 demo='''
import pandas as pd
a = pd.DataFrame([[1, 2, 3], [4, 5, 6]], index=['r', 's'], columns=['x', 'y', 'z'])
b = pd.DataFrame([[20, 10], [50, 40]], index=['r', 's'], columns=['y', 'x'])
with quiet():
    p, q = aux.intersect_dataframes(a, b)
check(set(p.columns) == {'x', 'y'} and set(q.columns) == {'x', 'y'}, 'columns')
for r, x, y in (('r', 10, 20), ('s', 40, 50)):
    check(q.loc[r, 'x'] == x and q.loc[r, 'y'] == y, 'entries of the second table')
    check(p.loc[r, 'x'] == x // 10 and p.loc[r, 'y'] == y // 10, 'entries of the first table')
'''),

dict(id='c28-coding-by-zero', property='C28',
 needs='data in the -1/1 coding with a missing entry',
 breaks='data is taken to be coded 0/1 if it contains a zero, so -1/1 data with missing entries is recoded',
 edits=[(AU, '''    if not -1 in np.unique(data):
        data = 2 * data - 1

    return np.array(data''', '''    if 0 in np.unique(data):
        data = 2 * data - 1

    return np.array(data''')],
 demo='''
for x, y in (([[0, 1], [1, 0]], [[-1, 1], [1, -1]]), ([[-1, 1], [1, -1]], [[-1, 1], [1, -1]]), ([[-1, 0], [1, -1]], [[-1, 0], [1, -1]])):
    with quiet():
        z = aux.check_binary_coding(np.array(x))
    check(np.array_equal(z, y), 'coding of %s' % x)
'''),

dict(id='c09-mean-in-int8', property='C09',
 needs='more than 127 samples of an entry that is the same in most of them',
 breaks='samples are summed in their own small type, so the mean wraps around with many samples',
 edits=[(MA, '''            return np.mean(self.trace, axis=0)
        # if''', '''            # no temporary copy of the whole trace
            return np.sum(self.trace, axis=0, dtype=self.trace.dtype) / len(self.trace)
        # if''')],
 demo='''
np.random.seed(3)
m = lom.Machine()
d = m.add_matrix(val=np.array([[1, -1], [-1, 1]], dtype=np.int8), fixed=True)
ly = m.add_layer(latent_size=1, child=d, model='OR-AND')
ly.z.fixed_entries[:] = 1
ly.z.fixed_entries[0, 0] = 0
with quiet():
    m.infer(no_samples=200, burn_in_min=1, burn_in_max=2, convergence_window=3)
for f in ly.factors:
    check(np.allclose(f.mean(), f.trace.astype(float).sum(0) / 200), 'mean')
'''),
]
