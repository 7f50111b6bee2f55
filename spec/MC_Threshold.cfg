SPECIFICATION Spec
CONSTANTS
  N = 1
  D = 2
  L = 2
  Base = 2
  QMax = 3
  XAll = TRUE
VIEW View
INVARIANTS LocalIsGlobal OneIsOr AboveIsFalse Monotone
PROPERTY Balance
CHECK_DEADLOCK FALSE
