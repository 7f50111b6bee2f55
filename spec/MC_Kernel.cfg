SPECIFICATION Spec
CONSTANTS Models <- Canonical
          DimSets <- DimsQ
          Ls <- Ls2
          Base = 2
          PriorOdds <- Odds1
INVARIANTS TypeOK LocalIsGlobal MissingNeutral
PROPERTIES DetailedBalance
CHECK_DEADLOCK FALSE
