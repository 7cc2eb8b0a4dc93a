SPECIFICATION Spec
CONSTANTS
 W = 3
 NB = 2
 VALUES = {0, 2}
INVARIANTS Whole Once Table
CHECK_DEADLOCK FALSE
