SPECIFICATION Spec
CONSTANTS
  W = 3
  R = 1
  F = 2
  BATCH = 2
INVARIANTS Additive Interval
CHECK_DEADLOCK FALSE
