SPECIFICATION Spec
CONSTANTS
  H = 2
  W = 3
  AMOUNT = 1
  STEPS = 2
INVARIANTS Tiles Additive Undone Shifts Located
CHECK_DEADLOCK FALSE
