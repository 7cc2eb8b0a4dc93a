SPECIFICATION Spec
CONSTANTS
  W = 4
  R = 1
  F = 2
  BATCH = 3
INVARIANTS Additive Interval
CHECK_DEADLOCK FALSE
