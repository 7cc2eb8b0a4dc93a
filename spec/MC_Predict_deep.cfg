SPECIFICATION Spec
CONSTANTS
 W = 4
 NB = 2
 VALUES = {0, 2}
INVARIANTS Whole Once Table
CHECK_DEADLOCK FALSE
