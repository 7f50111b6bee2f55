SPECIFICATION Spec
CONSTANTS Steps = 5
          MaxMats = 9
          MaxLays = 2
          Dims <- D2
INVARIANTS Sound Room2 Settled
CHECK_DEADLOCK FALSE
