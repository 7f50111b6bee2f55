SPECIFICATION Spec
CONSTANTS
  M = 7
  B = 3
  KMax = 3
  LMax = 3
INVARIANTS MissingStays Partition HeldIsWhatWentMissing PlainAccepted InversionNeutral Density
CHECK_DEADLOCK FALSE
