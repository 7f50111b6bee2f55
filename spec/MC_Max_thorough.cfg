SPECIFICATION Spec
CONSTANTS
  B = 5
  LamVals = {1, 2, 4}
  N = 1
  D = 1
  L = 3
INVARIANTS LocalIsGlobal TiesNeutral GreedyOK
CHECK_DEADLOCK FALSE
