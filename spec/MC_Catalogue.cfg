SPECIFICATION Spec
CONSTANTS KMax = 2
          LMax = 2
INVARIANTS Sound Groups
CHECK_DEADLOCK FALSE
