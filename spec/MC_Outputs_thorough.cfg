SPECIFICATION Spec
CONSTANTS
  Ls = {1, 2}
  Ts = {1, 2}
  Ks = {2, 3}
INVARIANTS IsProb Single Recombine Constant
CHECK_DEADLOCK FALSE
