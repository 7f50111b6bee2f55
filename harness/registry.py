"""Which specification decides which property."""


def C(module, failed, mc, note, assumptions=(), technique=None, consts=None):
    d = dict(walks=module.startswith('LomTrace'), module=module, failed=failed, mc=mc, note=note, assumptions=list(assumptions))
    d['consts'] = consts or {}
    if technique:
        d['technique'] = technique
    return d


LOMTRACE = ('MC_LomMachine', 'MC_LomMachine.cfg', 'MC_LomMachine_thorough.cfg')
LOMCLEAN = ('MC_LomMachine', 'MC_LomClean.cfg', 'MC_LomClean_thorough.cfg')
CLEAN = ('MC_Clean', 'MC_Clean.cfg', 'MC_Clean_thorough.cfg')
LOMREPEAT = ('MC_LomMachine', 'MC_LomRepeat.cfg', 'MC_LomRepeat_thorough.cfg')
LOMSTOP = ('MC_LomMachine', 'MC_LomStop.cfg', 'MC_LomStop_thorough.cfg')
LOMVEC = ('MC_LomMachine', 'MC_LomCleanVec.cfg', 'MC_LomCleanVec_thorough.cfg')
KERNEL = ('MC_Kernel', 'MC_Kernel.cfg', 'MC_Kernel_thorough.cfg')
OUTPUTS = ('MC_Outputs', 'MC_Outputs.cfg', 'MC_Outputs_thorough.cfg')
MAX = ('MC_Max', 'MC_Max.cfg', 'MC_Max_thorough.cfg')
MAX2 = ('MC_Max', None, 'MC_Max2_thorough.cfg')
IBP = ('MC_Ibp', 'MC_Ibp.cfg', 'MC_Ibp_thorough.cfg')
THRESH = ('MC_Threshold', 'MC_Threshold.cfg', 'MC_Threshold_thorough.cfg')
DATA = ('MC_Data', 'MC_Data.cfg', 'MC_Data_thorough.cfg')
MISSING = ('MC_Missing', 'MC_Missing.cfg', 'MC_Missing_thorough.cfg')
STATIC = ('MC_Static', 'MC_Static.cfg', 'MC_Static_thorough.cfg')
SHOW = ('MC_Show', 'MC_Show.cfg', 'MC_Show_thorough.cfg')
SHOWTABLES = ('MC_Show', 'MC_ShowTables.cfg', 'MC_ShowTables_thorough.cfg')
CATALOGUE = ('MC_Catalogue', 'MC_Catalogue.cfg', 'MC_Catalogue_thorough.cfg')
API = ('MC_LomApi', 'MC_LomApi.cfg', 'MC_LomApi_thorough.cfg')
BOUND = 'bounded: small shapes (extents mostly 1..6), sampled states and parameters from VERIF_SEED'
CHECKS = {
    'C01': C('ConformRun', 'FailedProd', [STATIC],
             'TLC evaluates the operator semantics of Lom.tla on every product observed on all generation routes; '
             'all rows enumerated up to L=3 (K=2,3), random and wide (up to 260 dimensions) rows beyond. Trusted: Lom.tla, TLC.', [BOUND]),
    'C02': C('ConformRun', 'FailedFuzzy', [STATIC],
             'Probabilities a/B make expectations exact integers, compared by TLC with the specified expectation (itself model-checked '
             'against the sum over all binary factors). Bounded B, L, K.', [BOUND]),
    'C03': C('ConformRun', 'FailedCanon', [STATIC],
             'TLC checks equivalence of requested and used model over all rows L<=3, K<=3 with the reported inversions, and the data effect.',
             [BOUND]),
    'C04': C('ConformRun', 'FailedSite', [KERNEL],
             'Exact acceptance probabilities of the real infer() (all random outcomes enumerated) against the log odds TLC computes from '
             'the specification; the specification of the chain is model-checked for detailed balance.', [BOUND]),
    'C05': C('ConformRun', 'FailedStat', [KERNEL],
             'The full transition kernel of one real iteration is enumerated for machines with up to 4 free entries; TLC checks stationarity '
             'of the specified posterior.', [BOUND]),
    'C06': C('ConformRun', 'FailedLbda', [STATIC],
             'Dispersion after one real update against the explained/observed cells TLC counts.', [BOUND]),
    'C08': C('ConformRun', 'FailedSite', [KERNEL],
             'As C04, with one or two parent layers and unfixed data.', [BOUND]),
    'C09': C('LomTraceRun', 'FailedOther', [LOMTRACE, LOMREPEAT],
             'Every recorded inference is replayed step by step against the life-cycle machine of LomMachine.tla (itself model-checked); '
             'traces, means and update order must be the ones the specification reaches.', [BOUND]),
    'C10': C('LomTraceRun', 'FailedOther', [LOMTRACE],
             'As C09; the specification decides on its own when burn-in ends, from the recorded dispersion values.',
             [BOUND, 'logistic means of the window halves are computed by the recorder; runs within 2e-6 of the tolerance are not judged']),
    'C11': C('LomTraceRun', 'FailedOther', [LOMTRACE],
             'As C09; every dispersion value during the minimum phase must lie on the ramp of the specification.', [BOUND]),
    'C07': C('LomTraceRun', 'FailedOther', [LOMREPEAT],
             'As C09; every recorded update and every change between updates must respect flags, masks and the value domain.', [BOUND]),
    'C12': C('LomTraceRun', 'FailedOther', [LOMCLEAN, LOMVEC, CLEAN],
             'Direct cleaning judged against all legitimate survivor sets; automatic cleaning during recorded inferences must be a '
             'cleaning step of the life-cycle machine (model-checked with cleaning enabled), at exactly the specified checks.', [BOUND]),
    'C13': C('OutputsRun', 'FailedOut', [OUTPUTS],
             'Every output is compared with the summary TLC computes from the recorded samples (Outputs.tla, relations between the '
             'summaries model-checked). Bounded numbers of samples and dimensions.', [BOUND, 'logistic of the mean dispersion computed by the recorder']),
    'C14': C('MaxRun', 'FailedMax', [MAX, MAX2],
             'Exact acceptance probabilities of the real infer() against the log-likelihood change TLC computes from the largest-active '
             'definition; the sibling-order computation is model-checked against it, with ties.',
             [BOUND, 'logarithms of the dispersions tabulated by the recorder; tolerance 6e-5 (single precision ratios)']),
    'C15': C('MaxRun', 'FailedMax', [MAX, MAX2],
             'Dispersion after a real update must be one of the greedy assignments (any order among ties); outputs against the largest '
             'active dispersion, its average over samples, its exact expectation at the marginals.', [BOUND]),
    'C16': C('IbpRun', 'FailedIbpOut', [IBP],
             'Distribution of a row update (all random outcomes of the real sweep enumerated) against the conditionals TLC computes; '
             'all sweeps and records of real runs against the allocation rules; the sweep is model-checked row by row (well-formedness, relation, detailed balance).', [BOUND]),
    'C17': C('ThresholdRun', 'FailedThreshold', [THRESH],
             'Exact acceptance probabilities, threshold distributions and whole-iteration kernels of the real infer() against the '
             'threshold semantics; the chain is model-checked for detailed balance.', [BOUND]),
    'C18': C('DataRun', 'FailedData', [DATA],
             'Returned training data and masks against the split relation; the distribution over all random outcomes enumerated on small '
             'arrays against the specified one.', [BOUND]),
    'C19': C('DataRun', 'FailedData', [DATA],
             'Exact flip distributions (all random outcomes enumerated) and sampled larger arrays against the noise relation; random products '
             'against the operator semantics and densities.', [BOUND]),
    'C20': C('DataRun', 'FailedData', [DATA],
             'Rational factor densities make densities exact integers, compared by TLC with the specified density (model-checked against the '
             'sum over all binary factors).', [BOUND]),
    'C21': C('HistoryRun', 'FailedHistory', [LOMREPEAT, KERNEL],
             'Conditionals and dispersion updates measured in later runs of changing machines against the specification at the current '
             'settings; twins: a new machine with the same current state, same seed, must behave identically.', [BOUND]),
    'C22': C('HistoryRun', 'FailedHistory', [LOMREPEAT],
             'Everything visible of a machine, its arguments, other machines and unrelated layers before and after each query, generator or '
             'activity elsewhere must be equal (the specification has no such transition); what follows must not depend on queries.', [BOUND]),
    'C23': C('MissingRun', 'FailedMissing', [MISSING],
             'Conditionals, dispersion updates, threshold and row distributions measured in machines of which most or all data is missing, '
             'against the specification (model-checked: missing rows are as good as absent); machines with and without the missing rows and '
             'columns must agree.', [BOUND]),
    'C24': C('Eval', 'FailedEval', [STATIC],
             'Accuracy, tables, areas and reconstructions recomputed by TLC from the returned factor means (multiples of 1/samples, hence '
             'exact) with the semantics of the requested model; twins for coding and for what evaluation may look at.',
             [BOUND, 'reconstructions with several dimensions compared to 3e-3 per dimension']),
    'C25': C('HistoryRun', 'FailedHistory', [LOMREPEAT],
             'The same seeded scenario (build, infer, infer again, ask; generators; experiments) repeated after other activity, with other junk in '
             'uninitialised memory, and in other processes with other hash seeds and environments must behave identically.', [BOUND]),
    'C26': C('CatalogueRun', 'FailedCat', [CATALOGUE],
             'All 36 models, all groupings and all operators judged by truth tables (up to three factors and two latent dimensions); '
             'the catalogue itself is model-checked: rewriting finds exactly the models the truth tables identify.',
             ['truth tables up to K=3, L=2 distinguish models', BOUND], consts=dict(KMax=3, LMax=2)),
    'C27': C('LomApiRun', 'FailedApi', [API],
             'Histories generated from LomApi.tla by TLC (-simulate) are replayed on real machines; after every action everything visible must be '
             'what the specification reaches. The specification is model-checked exhaustively for short histories.', [BOUND]),
    'C28': C('ShowRun', 'FailedShow', [SHOW, SHOWTABLES],
             'Displayed arrays, printed dispersions, tables and codings are recomputed by TLC from state, samples and arguments.',
             ['the picture is the first image of the figure drawn (matplotlib, Agg)', BOUND]),
    'C29': C('LomTraceRun', 'FailedOther', [LOMSTOP],
             'Inferences ended at any moment at which the interpreter notices interrupts: the state left must be one the specification reaches by interruption, and what '
             'follows is replayed like any inference, from that state.',
             [BOUND, 'interruptions on entering functions of the library and between rounds of loops (just-in-time compiler off)']),
}
for _k, _c in CHECKS.items():
    _c['id'] = _k
