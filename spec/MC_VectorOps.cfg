SPECIFICATION Spec
CONSTANTS
 N = 3
 MAXPARTS = 3
 BASE = 10
 STEPS = 2
INVARIANTS EachOnce Unique AsDefined
CHECK_DEADLOCK FALSE
