SPECIFICATION Spec
CONSTANTS
  Rows = 2
  L = 3
INVARIANTS Possible NothingToDo OnlyIfNothingToDo Stable ResetThenRemove InactiveDoNotMatter NeverMore Judged
CHECK_DEADLOCK FALSE
