SPECIFICATION Spec
CONSTANTS
  Cols = 2
  LamVals = {0}
  Ns = {1}
  Ws = {2}
  Mins = {0}
  Maxs = {3}
  Fixes = {0}
  Runs = 1
  Free = {{1, 2}}
  FreeLs = {{1}}
  Autos <- AutosBoth
  Stops = FALSE
  Vec = FALSE
  Masks = {{1}}
INVARIANTS TypeOK NeverBeyondMax MinimumDone StoppedForAReason WindowExact HeldDuringFix RampEnds
  Complete Recorded OncePerIteration FixedStay MaskStay CleanAtSampling Aligned
PROPERTIES FixedLamStay RecordOnlyAtEnd Terminates
CHECK_DEADLOCK FALSE
