SPECIFICATION Spec
CONSTANTS
  N = 3
  D = 1
  MaxW = 3
  Base = 2
  XAll = FALSE
INVARIANTS Aligned UsedAfter Relation Balance
CHECK_DEADLOCK FALSE
