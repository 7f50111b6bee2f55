SPECIFICATION Spec
CONSTANTS
  Cols = 1
  LamVals = {0, 4}
  Ns = {0, 2}
  Ws = {1}
  Mins = {0, 1}
  Maxs = {0, 2}
  Fixes = {0}
  Runs = 3
  Free = {{1}, {1, 2}}
  FreeLs = {{}, {1}}
  Autos <- AutosNone
  Stops = TRUE
  Vec = FALSE
  Masks = {{1}}
INVARIANTS TypeOK NeverBeyondMax MinimumDone StoppedForAReason WindowExact HeldDuringFix RampEnds
  Complete Recorded OncePerIteration FixedStay MaskStay CleanAtSampling Aligned
PROPERTIES StopKeeps FixedLamStay RecordOnlyAtEnd Terminates
CHECK_DEADLOCK FALSE
