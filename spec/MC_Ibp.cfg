SPECIFICATION Spec
CONSTANTS
  N = 2
  D = 1
  MaxW = 3
  Base = 2
  XAll = TRUE
INVARIANTS Aligned UsedAfter Relation Balance
CHECK_DEADLOCK FALSE
