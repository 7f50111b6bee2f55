SPECIFICATION Spec
CONSTANTS KMax = 3
          LMax = 3
INVARIANTS Sound Groups
CHECK_DEADLOCK FALSE
