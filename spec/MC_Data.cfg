SPECIFICATION Spec
CONSTANTS
  M = 4
  B = 2
  KMax = 3
  LMax = 3
INVARIANTS MissingStays Partition HeldIsWhatWentMissing PlainAccepted InversionNeutral Density
CHECK_DEADLOCK FALSE
