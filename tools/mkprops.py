#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (source of truth for the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=None)))

AUX='lom/auxiliary_functions.py'; OUT='lom/_numba/lom_outputs.py'; FUZ='lom/_numba/lom_outputs_fuzzy.py'
SC='lom/_numba/posterior_score_fcts.py'; MU='lom/_numba/matrix_updates_numba.py'; MW='lom/matrix_update_wrappers.py'
LU='lom/_numba/lambda_updates_numba.py'; LW='lom/lambda_update_wrappers.py'; MA='lom/machine.py'
MM='lom/_numba/max_machine_sampler.py'; EX='lom/experiments.py'

prop('C01','Logical products follow the operator definitions',
 "For each of the 36 outer/inner combinations of AND, OR, NAND, NOR, XOR and NXOR (XOR of several inputs meaning that exactly one is true), data generated from binary factors equals, cell by cell, the outer operator applied over latent dimensions to the inner operator applied over factors. The scalar, the fast and the general generation routes, the plain Boolean tensor product and a layer's point-estimate output all give that same result, for two and three (general route: also more) factors, any number of latent dimensions and any factor shapes.",
 ['inputs','configurations'],'all operator pairs, K in {2,3,..}, all factor shapes and all +-1 entries',
 'Tests compare 10 random length-3 vectors for the 8 two-factor scalar functions; three-factor functions, other lengths, array routes and asymmetric shapes are never compared with the definition.',
 [OUT,LU,AUX,MA],[('one scalar function per model and arity',OUT),('dispatch tables and array loops',LU+': get_scalar_output_function_*, make_output_function_*'),('general interpreter',AUX+': get_lop, lom_generate_data')],
 observe=['aux.lom_generate_data','aux.lom_generate_data_fast','lambda_updates_numba.get_scalar_output_function_2d/3d','aux.boolean_tensor_product','MachineLayer.output(point_estimate)'])

prop('C02','Probabilistic products are exact expectations',
 "For every supported model with two or three factors whose entries are independent probabilities in [0,1], the probabilistic ('fuzzy') product equals exactly the probability that the logical product of independently drawn binary factors is 1. It therefore lies in [0,1] and coincides with the binary product when all entries are 0 or 1; the scalar, array and general fuzzy routes agree.",
 ['inputs','configurations'],'all 8 canonical models (and all 36 through the general route), 2 or 3 factors, any number of latent dimensions, any probabilities',
 'One test compares 3 random length-3 vectors of the two-factor scalar functions to a reference; the three-factor functions and the array route are not compared to anything.',
 [FUZ,LU,AUX],[('closed-form product per model',FUZ),('dispatch and array loops',LU),('general fuzzy operators',AUX+': get_fuzzy_lop, lom_generate_data_fuzzy')],
 observe=['lambda_updates_numba.get_scalar_output_function_2d/3d(fuzzy=True)','aux.lom_generate_data_fast(fuzzy=True)','aux.lom_generate_data_fuzzy'])

prop('C03','Reduction to a canonical model preserves meaning',
 "When a layer is added with any of the 36 two-operator models, the requested product of the factors equals the product under the model actually used, after inverting the factors if and only if factor inversion is reported and inverting the result if and only if data inversion is reported. The layer's data is negated exactly when data inversion is reported and otherwise left alone, the array the caller passed in keeps its content, and the model used is one for which inference is implemented.",
 ['inputs','configurations'],'all 36 model names, 2 or 3 factors, any latent size, any data including missing cells, layers added on given data or by shape only',
 'Tests run inference only for the 8 models that need no translation; the 28 translated ones are never constructed.',
 [AUX,MA],[('canonise_model, replace_equivalent_model',AUX),('Machine.add_layer',MA)],
 state=[('layer.model/invert_data/invert_factors','reported translation',MA)],observe=['Machine.add_layer','layer.invert_data','layer.invert_factors','layer.child()'])

prop('C04','Resampling one entry obeys its exact conditional',
 "In a single layer of any of the 8 canonical models with two or three factors, the odds with which an update changes a free factor entry from -1 to 1 versus from 1 to -1 equal exp(lambda times (data cells correctly explained with the entry at 1 minus those correctly explained with it at -1)) times the odds of the entry's Bernoulli prior. This holds for every factor (whatever data axis it belongs to), every shape, every state of the other entries, every lambda and every prior.",
 ['inputs','configurations'],'8 models x 2D/3D x all factors x all shapes, states, data in {-1,0,1}, lambda, prior',
 'Tests run whole inferences from the ground truth at large lambda and accept 98% reconstruction; a wrong conditional for some factor state, arity, axis or prior changes a few flips and passes.',
 [SC,MU,MW],[('posterior score functions (explaining away)',SC),('metropolised Gibbs flip',MU+': flip_metropolised_gibbs_numba'),('sampler construction, axis alignment, prior',MW)],
 state=[('factors[i].val','current factor sample',MA),('lbda.val','noise parameter',MA)],observe=['exact acceptance probabilities of Machine.infer / mat.sampling_fct under a controlled random source'])

prop('C05','An inference sweep leaves the posterior invariant',
 "With the noise parameters held fixed, one complete sampling iteration of a machine (all free matrices, in whatever order is drawn) is a Markov kernel for which the model's posterior over all free matrices given data, priors and fixed entries is stationary, and no free entry is ever stuck: in every state some outcome of the iteration changes it. This covers single layers of the canonical models and hierarchies of layers.",
 ['inputs','schedules','configurations'],'all small machines: models, arities, update orders, random decisions, priors, data with missing cells',
 'Tests sample a handful of random runs and check reconstruction accuracy; stationarity quantifies over every state and every outcome of the random draws.',
 [MU,SC,MW,MA],[('sequential in-place updates within a matrix',MU+': make_sampling_fct_*'),('random permutation of matrices per iteration',MA+': Machine.infer')],
 observe=['transition kernel of one Machine.infer iteration obtained by enumerating all outcomes of its random draws'])

prop('C06','Dispersion update is the smoothed fraction explained',
 "After a layer's dispersion is updated, its logistic transform equals (P + a)/(ND + a + b), but at least one half, where (a, b) is the layer's beta prior ((1, 1) unless set otherwise), ND the number of observed data cells and P the number of those reproduced by the deterministic product of the current factors. This holds for every canonical model, two or three factors, every shape and every amount of missing data, and the update changes nothing else.",
 ['inputs','configurations'],'8 models (plus the IBP and threshold variants), 2D/3D, all factors and data in {-1,0,1}, all positive beta priors',
 'One test checks one OR-AND case with perfect reconstruction and no missing data.',
 [LU,LW],[('correct prediction counters',LU+': make_correct_predictions_counter'),('closed-form update',LU+': make_lbda_update_fct'),('dispatch',LW)],
 state=[('lbda.val','logit of the noise level',MA),('lbda.beta_prior','Beta prior',MA)],observe=['layer.lbda() after update'])

prop('C07','What is declared fixed never changes',
 "No matrix marked fixed, no dispersion parameter marked fixed, no entry flagged in a matrix's fixed-entries mask, and no fixed data matrix is ever changed by inference, by drawing samples, or by computing outputs, over any sequence of such calls; the only exceptions are latent dimensions removed or reset on request by automatic cleaning, and the dimensions the IBP model itself creates or drops. All values of matrices stay in {-1, 1} (data: {-1, 0, 1}; qL thresholds: {1, .., 5}), whatever the history; at the same time members not declared fixed are all updated.",
 ['histories','configurations'],'all subsets of fixed matrices / parameters / entries, single layers and hierarchies, repeated inference',
 'Tests only ever fix the data matrix and never compare it before and after; fixed entries, fixed factors and fixed parameters are never used.',
 [MU,MA,MM],[('fixed-entries guard in every sampler',MU),('selection of members to sample',MA+': Machine.infer'),('MAX-AND guard',MM)],
 state=[('mat.fixed, mat.fixed_entries, lbda.fixed','declared constants',MA)],observe=['all matrices and parameters after every update'])

prop('C08','Hierarchies combine evidence from children and parents',
 "For a matrix that is a factor of one layer and/or the child of one or two two-factor layers (a factor of a three-factor layer: the child of at most one), the odds of an update towards 1 versus -1 are the product of its own layer's likelihood term (if any), of exp(lambda_p times the +-1 product predicted by layer p) for each layer p of which it is the child, each with that layer's own model, factors and dispersion, and of its prior odds. This includes data matrices that are not fixed, whose observed free entries are then drawn from their predictive distribution while missing ones stay missing. Hierarchies beyond these (for a matrix that is not fixed: more layers on top of it than that, MAX-AND, qL-AND, IBP or three-factor layers on top of it, or any layer on top of a factor of a MAX-AND, qL-AND or IBP layer) are refused with an error - never sampled with part of the evidence left out.",
 ['inputs','configurations'],'all combinations of own model (2D/3D or none) and one or two parent models, all states, lambdas and priors',
 'No test builds more than one layer.',
 [MU,MW,MA],[('make_sampling_fct_onechild_oneparent / nochild_* / onechild_twoparents',MU),('get_sampling_fct, get_relatives_models',MW),('parents registration',MA+': MachineLayer.__init__')],
 state=[('mat.parents','layers whose child the matrix is',MA)],observe=['exact acceptance probabilities through Machine.infer'])

prop('C09','Samples are recorded completely and faithfully',
 "After inference with n samples, every member that was not fixed holds exactly n recorded samples, the i-th being that member's value at the end of the i-th sampling iteration after burn-in, and nothing from burn-in or from earlier runs. In every iteration, burn-in or sampling, each free matrix is updated exactly once and thereafter each free dispersion parameter exactly once (except where burn-in options hold it or anneal it), and posterior means are the averages of the recorded samples.",
 ['histories','schedules','configurations'],'all machines (layers, fixedness), all sample counts and burn-in settings, all random permutations, repeated runs',
 'Tests only look at outputs averaged over the traces; a shifted, stale or partially filled trace, or a member skipped in some iterations, still reconstructs the data.',
 [MA],[('Machine.infer sampling loop','lom/machine.py: Machine.infer'),('Trace.allocate_trace_arrays/update_trace/mean','lom/machine.py: Trace')],
 state=[('trace, trace_index','recorded samples',MA)],observe=['mat.trace, lbda.trace, mat.mean() after infer'])

prop('C10','Burn-in stops exactly when it should',
 "Burn-in performs at least its minimum number of iterations, then continues until a convergence check succeeds or the total reaches its maximum, and never runs beyond the maximum (unless the minimum is larger). A check happens after each full convergence window of further iterations and succeeds only if, for every free dispersion parameter, the logistic means over the first and second half of exactly that window differ by less than the tolerance; during the first 'fix' iterations of the minimum phase dispersion parameters stay unchanged. The number of burn-in iterations the machine reports is the number performed.",
 ['histories','inputs','configurations'],'all window lengths, tolerances, minima, maxima, numbers of layers and all dispersion histories',
 'Tests use one window setting each and never observe how many iterations were performed nor which values a check used.',
 [MA,AUX],[('Machine.burn_in',MA),('check_convergence','lom/machine.py: Trace.check_convergence'),('check_convergence_single_trace',AUX)],
 state=[('burn_in_iters, lbda.trace during burn-in','window of dispersion values',MA)],observe=['number of updates per run, dispersion values, burn_in_iters'])

prop('C11','Annealing ramps dispersion up to its target',
 "With annealing enabled, the dispersion of every free layer during the minimum burn-in phase follows an evenly spaced increasing ramp over the iterations of that phase that ends exactly at the value it had when inference was started, independently per layer. Afterwards dispersion is updated normally, and annealing together with a nonzero number of fixed-dispersion iterations is rejected.",
 ['histories','configurations'],'all targets, phase lengths and numbers of layers',
 'No test enables annealing.',
 [MA],[('annealing branch of Machine.burn_in',MA)],state=[('lbda.val during burn-in','annealed value',MA)],observe=['dispersion value after every burn-in iteration'])

prop('C12','Removing latent dimensions keeps a layer consistent',
 "Cleaning a layer in removal mode deletes latent dimensions jointly from all factors and everything aligned with their columns (fixed-entry masks, per-dimension dispersion), keeps the order and content of the surviving ones, and leaves no dimension in which some factor is entirely inactive and no two dimensions sharing an identical column in some factor; every deleted dimension was inactive in that sense or a duplicate of a surviving one. In reset mode the same dimensions are set to -1 in all factors instead, and the report says truthfully whether any dimension was redundant (and hence removed or reset).",
 ['inputs','histories'],'all factor states, 2 and 3 factors, runs of adjacent redundant dimensions, during inference or called directly',
 'No test enables automatic cleaning.',
 [AUX,MA],[('clean_up_codes, remove_dimension, reset_dimension',AUX),('auto_clean/auto_reset handling in burn-in',MA)],
 state=[('layer.size, factors[i].val, fixed_entries','latent dimension',MA)],observe=['factors before/after aux.clean_up_codes and Machine.infer with auto_clean/auto_reset'])

prop('C13','Outputs summarise the recorded posterior correctly',
 "A layer's output is an array of probabilities of emitting a 1 in which: 'point_estimate' is the product of the current factors, 'factor_map' the product of the factors thresholded at posterior mean 0, 'factor_mean' the exact expected product at the posterior marginals, and 'mc' the average product over the recorded joint samples. With noisy emission, p becomes p*s + (1-p)*(1-s) with s the logistic of the mean dispersion; without mapping to probabilities the result is 2p-1; a fixed member contributes its constant value. A lazy output is the one last computed, mapped as asked for now.",
 ['histories','inputs','configurations'],'all canonical models, 2D/3D, all recorded sample histories, all option combinations, fixed members',
 'Tests check thresholded accuracy of factor_map/factor_mean around converged factors only; mc, noisy, point_estimate and unmapped outputs are not checked.',
 [MA,AUX],[('MachineLayer.output',MA),('lom_generate_data_fast',AUX),('Trace.mean',MA)],
 state=[('trace','recorded samples',MA)],observe=['layer.output(...)'])

prop('C14','MAX-AND updates follow the explaining-away likelihood',
 "In a MAX-AND layer, where each data cell is 1 with the largest probability among its active latent dimensions (the clamped baseline probability if none is active), the log-odds with which a free factor entry is updated towards 1 versus -1 equal the resulting change in data log-likelihood (under the uniform prior), for the dispersion values, in (0, 1), currently set. This holds for any order of the per-dimension probabilities, any state, both factors and missing cells.",
 ['inputs','configurations'],'all factor states, all dispersion vectors (sorted or not, as left by updates or set by the user), data in {-1,0,1}',
 'One test starts at ground truth with equal dispersion values and checks 80% reconstruction.',
 [MM,MW,MA],[('posterior_score_MAX_AND_2D, compute_lbda_ratios, draw_MAX_AND_2D',MM),('l_order in wrapper',MW)],
 state=[('lbda (L+1 probabilities), lbda_ratios','per dimension emission probabilities',MA)],observe=['exact acceptance probabilities of the factor update'])

prop('C15','MAX-AND dispersions and outputs are consistent',
 "A MAX-AND dispersion update assigns probabilities greedily: repeatedly the latent dimension with the highest smoothed precision (TP+1)/(TP+FP+2) on the cells not yet claimed receives that value and claims its cells (ties in any order), the baseline gets the smoothed precision of the unclaimed cells but never more than the smallest other value; missing cells count nowhere. The layer's output gives each cell the largest probability among its active latent dimensions (0 if none is active), for point, map and averaged outputs alike, with the current dispersions or, for summaries over samples, their posterior means or the values of each sample.",
 ['inputs','configurations'],'all factor states and data, any number of latent dimensions, ties, unsorted dispersions',
 'The only test checks reconstruction at 0.5 threshold, which is insensitive to which of several large probabilities is used.',
 [MM,OUT,FUZ,MA],[('lbda_MAX_AND',MM),('MAX_AND_product_2d',OUT),('MAX_AND_product_fuzzy',FUZ)],
 state=[('lbda','emission probabilities',MA)],observe=['layer.lbda() after update','layer.output()'])

prop('C16','The IBP sampler keeps the feature allocation well formed',
 "In the OR-AND-IBP model both factors always have the same number of latent dimensions and their rows match the data; a row's own update drops exactly the dimensions no other row uses, updates each shared dimension with odds (users among the other rows)/(the rest) times the likelihood ratio, and then appends zero, one or two new ones used by that row only, with probability proportional to the Poisson(alpha/N) weight times the row's likelihood averaged over their unknown features, which are drawn with their prior odds times the likelihood ratio. Inference runs to completion with the number of dimensions growing and shrinking, records every sample in full, entries of the features marked as fixed stay as they are and with their dimension, and the result can be summarised by the usual outputs.",
 ['inputs','histories','schedules'],'all factor states, data, concentration parameters and random outcomes, including growth beyond the initial size',
 'The only IBP test crashes at import time on this tree.',
 [MU,MW,MA],[('sample_2d_IBP',MU),('IBP_sampler wrapper',MW),('allocate_trace_arrays_IBP/update_trace_IBP',MA)],
 state=[('factors[0].val, factors[1].val','feature allocation and features',MA)],observe=['factors after every update','traces, layer.output()'])

prop('C17','Threshold (qL) machines sample their own posterior',
 "In the qL-AND model, where a cell is predicted 1 exactly if at least q of the latent dimensions are active in both factors (q per column), factor entries are updated with log-odds lambda times the change in correctly explained observed cells plus their prior log-odds, and q is drawn with probability proportional to its truncated Poisson weight times exp(lambda times observed cells of that column correctly explained). Fixed entries are respected, and outputs are 0 or 1 according to that rule for the current state.",
 ['inputs','configurations'],'all factor states, thresholds, data in {-1,0,1}, lambda',
 'No test uses the model.',
 [MU,MW,OUT,MA],[('sample_qL_q, sample_qL_factors_*, posterior_score_fct_qL_*',MU),('qL_AND_product',OUT)],
 state=[('layer.q','threshold per column',MA)],observe=['exact acceptance probabilities','layer.output()'])

prop('C18','Train/test splits hold out exactly what they report',
 "Splitting data for held-out evaluation returns training data equal to the original wherever nothing is held out and missing (0) exactly at the held-out cells, all of which were observed, and leaves the original untouched. The unbalanced split holds out every observed cell independently with the same probability, such that the expected number is the requested share of all cells. The balanced variants hold out equally many ones and minus ones, in number the requested share of the observed (or of all) cells, and 0/1 coded data is recoded to -1/1 first where that is documented.",
 ['inputs','schedules'],'all data arrays of any dimension with any missing pattern, all split fractions, all random outcomes',
 'The only test that calls a split fails on this tree before checking anything.',
 [EX,AUX],[('split_train_test, split_tensor_train_test_old',EX),('split_test_train, check_binary_coding',AUX)],
 observe=['returned training data and mask'])

prop('C19','Noise and random data generators do what they say',
 "Adding noise flips each cell independently with exactly the requested probability (for the biased variant depending on the cell's value), never touches missing cells, gives an identical copy at probability 0 and the full inversion at probability 1, does not modify its input, and is reproducible for a given seed argument. Random product data is exactly the product of the returned factors, whose columns are mutually non-nested, and random tensors have the requested shape and expected density.",
 ['inputs','schedules'],'all arrays, probabilities, seeds and random outcomes',
 'Noise functions are only used to prepare test data; nothing checks their effect.',
 [AUX,EX],[('add_bernoulli_noise*, random_machine_matrix, generate_orm_product',AUX),('generate_random_tensor',EX)],
 observe=['returned arrays'])

prop('C20','Expected densities are exact',
 "For each of the 36 models, any number of latent dimensions and two or more factors with independent entries of density f, the predicted density of the data equals the exact probability that a cell of the product is 1. Conversely, the factor density computed for a reachable target density reproduces that target.",
 ['inputs','configurations'],'36 models, all L, K and f in [0,1]',
 'The only density test swallows its own assertion failures and covers f=.5, K=2, L=3.',
 [AUX],[('expected_density, get_lom_class, factor_density',AUX)],observe=['aux.expected_density','aux.factor_density'])

prop('C21','Repeated inference honours the current configuration',
 "Calling inference again on a machine uses the settings in force at that moment: priors, fixed flags and entries, dispersion values and priors, data and the set of layers as they are now, never a remembered earlier configuration. Changing a setting between two runs therefore has the same effect as building a new machine with the same current state.",
 ['histories','configurations'],'all histories of runs interleaved with changes to priors, fixedness, data, values and added layers',
 'Every test calls inference once on a fresh machine.',
 [MA,MW,LW],[('get_sampling_fct caching',MW),('get_update_fct caching',LW),('Machine.infer',MA)],
 state=[('mat.sampling_fct','remembered sampler',MA)],observe=['exact acceptance probabilities and dispersion values in second and later runs'])

prop('C22','Queries and generators have no side effects',
 "Computing outputs and means, generating data, adding noise, splitting data, checking convergence and testing columns never change the machine (factors, data, dispersion, traces, model, priors, masks), their array arguments or another machine; what generators, noise and splits return can be changed without changing their arguments or one another; repeating a query gives the same result, what a machine does later does not depend on which queries were made, and a query that fails changes nothing either. Two machines, and two layers that share no matrix, never influence each other's state.",
 ['histories','inputs','configurations'],'all sequences of queries on all machine states, with several machines alive',
 'Tests never compare state before and after a query, and use one machine at a time.',
 [MA,AUX,EX,OUT],[('MachineLayer.output',MA),('copies in noise and split functions',AUX+', '+EX),('per-instance state',MA)],
 observe=['full projected state before/after each call'])

prop('C23','Missing cells carry no information',
 "Data cells marked missing (0) have no influence on anything inferred: the conditional of every factor entry, the dispersion update, the thresholds and the feature allocation are the same as for the machine in which those cells are absent, for every model. In particular, entries of which every data cell is missing follow their prior (the uniform one in MAX-AND layers).",
 ['inputs','configurations'],'all models (canonical, MAX-AND, IBP, qL), arities, missing patterns and states',
 'No test has missing data.',
 [SC,LU,MM,MU],[('zero contributes nothing to scores',SC),('observed cell counts',LU),('TP/FP counts',MM),('TN/FN counts',MU)],
 observe=['exact acceptance probabilities and dispersion with and without the missing rows/columns'])

prop('C24','Held-out evaluation compares like with like',
 "The reported predictive accuracy of a model is the fraction of held-out cells for which the thresholded mean prediction, translated back if the model required inverted data, equals the true cell, using only the held-out cells; the grid search evaluates every requested combination exactly once, on one split of the requested kind, and pairs each result with its own settings. Every evaluated model has been inferred from the training data with the requested settings, and inference never sees held-out values. The area under the curve is the one over the held-out cells. Reconstruction helpers accept 0/1 and -1/1 data alike and return the layer's own output and factor means.",
 ['inputs','configurations','schedules'],'all models including inverted ones, all masks, all grids',
 'No test calls the experiment helpers.',
 [EX],[('LOM_predictive, LOM_hyperparms_parallel_gridsearch, tensorm_reconstruct',EX)],observe=['returned accuracy and tables'])

prop('C25','Inference is reproducible from the random seed',
 "With the global random seed set, building a machine, running inference and computing outputs is a deterministic function of seed, data and settings: traces, factors, dispersions, iteration counts and outputs repeat exactly. Nothing read from uninitialised memory, from earlier machines or from the environment enters the result.",
 ['histories','schedules','configurations'],'all models, settings and preceding activity in the process',
 'Tests never run the same inference twice.',
 [MA,MU,MM],[('global numpy generator as only source of randomness',MU),('trace allocation',MA)],observe=['full state and traces of repeated runs'])

prop('C26','The catalogue of models tells the truth',
 "What the library says about its models is true of the functions they denote, for any number of factors, latent dimensions and truth values. A model replaced by its equivalent is the same function, and replacing again changes nothing. The class and inversions reported for each of the 36 models reproduce exactly that model. The lists of clans (and families) contain, without repetition, exactly one representative of each group of models that become equal when data or factors (only factors) are inverted; the implemented clans are exactly the models supporting inference. Each logical operator, ordinary or probabilistic, computes its definition on vectors of any length and coding (XOR meaning exactly one). Unknown operators, levels and modes are refused.",
 ['inputs','configurations'],'36 models, all truth assignments, all operators and vector lengths',
 'No test looks at the classification, and density tests swallow their failures.',
 [AUX],[('get_lom_class, replace_equivalent_model, canonical_loms, implemented_loms, get_lop, get_fuzzy_lop',AUX)],
 observe=['returned names, inversions and truth values'])

prop('C27','A machine is exactly what its history of calls made it',
 "After any sequence of supported calls (adding matrices and layers, fixing and freeing members, fixing single entries, inferring, asking for outputs, asking for redundant dimensions to be removed or reset during inference, setting members to their posterior mode) the machine has exactly the matrices and layers that were added, with the shapes, members, siblings, parents, children, sizes and models they were added with; fixed members never change and hold no samples, free ones hold as many as the last inference recorded; values given are kept, values generated have the stated coding and density; repeated or refused calls change nothing; the size of a layer changes only where removal was asked for and in IBP layers, and then in all members, masks and dispersions it belongs to. A member set to its posterior mode has, entry by entry, the mode of the samples held (a threshold the most frequent value, missing data stay missing; an IBP layer is set as a whole). Outputs are those of the samples or the state, as asked, and a lazy output is the last computed one in the requested mapping.",
 ['histories','configurations'],'all histories of calls, including several layers, stacks, shared children and three-factor layers',
 'Tests build one machine, infer once and look at one error rate.',
 [MA,MW],[('Machine.add_matrix, add_layer, infer, layers, members, lbdas',MA),('MachineMatrix, MachineLayer',MA)],
 state=[('mat.parents/child/siblings','hierarchy of matrices and layers',MA),('mat.trace, layer.trace','samples',MA)],
 observe=['structure, values, samples and modes after every call'])

prop('C28','What is displayed and tabulated is what is there',
 "Displaying a matrix shows, cell by cell on a fixed scale from 0 to 1, the probability of a one: from the samples (mean), their mode (map) or the current state, for matrices with and without negative entries. Arrays in the -1/1 coding and arrays of probabilities are displayed with the same meaning and never changed. Dispersions in progress reports are the current ones. Codes of MAX-AND layers are displayed in the order of their relevance (the expected share of the ones that a dimension explains, in the samples held) or dispersion, and labelled with both. Two tables reduced to what they share have exactly the shared rows (ordered) and columns, the same in both, with their own entries. Codings, distinct entries, label positions and scalar functions (logistic, logit, sum of exponentials, log odds of one success more under a binomial or beta-binomial distribution) are what they are defined to be; arguments are never changed.",
 ['inputs','configurations','histories'],'all matrices, samples, tables, codings and arguments',
 'No test displays a matrix, reads a progress report or intersects tables.',
 [AUX,MA],[('plot_matrix, plot_matrix_ax, intersect_dataframes, check_binary_coding, unique_ordered, find_centers_of_ordered_list, expit, logit, logsumexp',AUX),('MachineMatrix.show, MachineParameter.print_value',MA)],
 observe=['array and limits of the picture drawn, printed numbers, returned tables and values'])

prop('C29','An interrupted inference leaves a machine one can go on with',
 "If an inference ends before its time (an interrupt by the user, an exception), at whatever moment, all matrices and dispersions hold the values they had got to: at most the one member whose update was under way has changed further, within what its update may do - values stay in their domain, fixed members and fixed entries keep their values, and nothing that was declared (fixed flags, masks, priors, models, sizes, annealing) is changed. A later inference is a complete one that starts from this state: what it updates, records, holds, anneals and how it ends burn-in is independent of the interruption. (Not covered: interruptions while latent dimensions are removed or reset, and posterior means asked for before the next inference.)",
 ['crash points','histories','schedules'],'all moments of all inferences: single layers and hierarchies, before, during and after burn-in, within and between updates, repeated interruptions',
 'No test ends an inference early.',
 [MA,MW],[('Machine.infer, Machine.burn_in: what is set up and reset by an inference',MA),('get_sampling_fct',MW)],
 state=[('mat.val, lbda.val, masks, fixed flags','state and declarations',MA)],observe=['state and declarations when the inference has ended','the following inferences'])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl'),'w') as f:
    for p in P:
        assert len(p['title'])<=80, p['id']
        f.write(json.dumps(p)+'\n')
