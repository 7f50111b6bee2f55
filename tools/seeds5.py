AU = 'lom/auxiliary_functions.py'
MA = 'lom/machine.py'
MM = 'lom/_numba/max_machine_sampler.py'
SEEDS = [
dict(id='c28-two-stronger', property='C28',
 needs='a one in the data that three dimensions of a MAX-AND layer cover, in a sample with three different dispersions',
 breaks='a one covered by two stronger dimensions at once counts as explained by the weakest, too',
 edits=[(MM, '''                        x_pred_alt += np.dot(z_tr[tr_idx,:,l_alt:l_alt+1]==1,
                                             u_tr[tr_idx,:,l_alt:l_alt+1].transpose()==1)
                        x_pred_alt = x_pred_alt > 0

                eigenvals[l] += alpha_tr[tr_idx,l] * np.sum(x[(x_pred==1) & (x_pred_alt !=1)] == 1)
''', '''                        x_pred_alt += np.dot(z_tr[tr_idx,:,l_alt:l_alt+1]==1,
                                             u_tr[tr_idx,:,l_alt:l_alt+1].transpose()==1)

                eigenvals[l] += alpha_tr[tr_idx,l] * np.sum(x[(x_pred==1) & (x_pred_alt !=1)] == 1)
''')],
 demo='''
import lom._numba.max_machine_sampler as mm
x = np.array([[1, 1, -1], [1, -1, 1]], dtype=np.int8)
m = lom.Machine()
with quiet():
    d = m.add_matrix(val=x, fixed=True)
    ly = m.add_layer(latent_size=3, child=d, model='MAX-AND')
    m.infer(no_samples=1, burn_in_min=1, burn_in_max=1, convergence_window=2)
ly.z.trace[:] = 1
ly.u.trace[:] = 1
ly.lbda.trace[0] = [.5, .75, .25, .1]
rel = mm.maxmachine_relevance(ly)
check(np.allclose(rel[:3], [0, .75, 0]), 'relevance %s' % rel)
'''),
]
