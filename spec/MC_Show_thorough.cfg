SPECIFICATION Spec
CONSTANTS
  Kind = "display"
  Cols = 2
  MaxSamples = 7
  RowIds = {1}
  ColIds = {1}
INVARIANTS Displays MapOfMean Single Faithful Entries DoneIsReduced
PROPERTY SharedKept
CHECK_DEADLOCK FALSE
