SPECIFICATION Spec
CONSTANTS N = 2
 D = 2
 L = 2
INVARIANTS CanonicalAbsent MaxAbsent ThresholdAbsent
CHECK_DEADLOCK FALSE
