SPECIFICATION Spec
CONSTANTS
  Kind = "tables"
  Cols = 1
  MaxSamples = 1
  RowIds = {1, 2}
  ColIds = {3, 4}
INVARIANTS Displays MapOfMean Single Faithful Entries DoneIsReduced
PROPERTY SharedKept
CHECK_DEADLOCK FALSE
