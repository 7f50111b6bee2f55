SPECIFICATION Spec
CONSTANTS
  N = 2
  D = 2
  L = 3
  Base = 2
  QMax = 4
  XAll = FALSE
VIEW View
INVARIANTS LocalIsGlobal OneIsOr AboveIsFalse Monotone
PROPERTY Balance
CHECK_DEADLOCK FALSE
