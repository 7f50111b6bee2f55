SPECIFICATION Spec
CONSTANTS Models <- Canonical
          DimSets <- DimsT
          Ls <- Ls2
          Base = 2
          PriorOdds <- Odds2
INVARIANTS TypeOK LocalIsGlobal MissingNeutral
PROPERTIES DetailedBalance
CHECK_DEADLOCK FALSE
