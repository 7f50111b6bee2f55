INIT GenInit
NEXT GenNext
INVARIANT Emit
CHECK_DEADLOCK FALSE
