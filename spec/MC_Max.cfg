SPECIFICATION Spec
CONSTANTS
  B = 5
  LamVals = {1, 3, 4}
  N = 1
  D = 2
  L = 2
INVARIANTS LocalIsGlobal TiesNeutral GreedyOK
CHECK_DEADLOCK FALSE
