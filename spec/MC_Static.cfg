SPECIFICATION Spec
CONSTANTS Ks <- K23
          LMax = 2
          B = 1
INVARIANTS CanonEquivalent ExpectationIsProductForm ExpectationInRange ExpectationExtendsProduct DensityClosedForm ReducedIsExpected WeightsAreRepetitions
CHECK_DEADLOCK FALSE
