SPECIFICATION Spec
CONSTANTS
  Cols = 1
  LamVals = {0, 4}
  Ns = {0, 1, 2}
  Ws = {1, 2}
  Mins = {0, 1, 2}
  Maxs = {0, 2, 3}
  Fixes = {0, 1}
  Runs = 1
  Free = {{1}, {1, 2}}
  FreeLs = {{}, {1}}
  Autos <- AutosNone
  Stops = FALSE
  Vec = FALSE
  Masks = {{}, {1}}
INVARIANTS TypeOK NeverBeyondMax MinimumDone StoppedForAReason WindowExact HeldDuringFix RampEnds
  Complete Recorded OncePerIteration FixedStay MaskStay CleanAtSampling Aligned
PROPERTIES FixedLamStay RecordOnlyAtEnd Terminates
CHECK_DEADLOCK FALSE
