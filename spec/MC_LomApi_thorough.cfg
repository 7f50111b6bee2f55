SPECIFICATION Spec
CONSTANTS Steps = 6
          MaxMats = 9
          MaxLays = 2
          Dims <- D3
INVARIANTS Sound Room2 Settled
CHECK_DEADLOCK FALSE
