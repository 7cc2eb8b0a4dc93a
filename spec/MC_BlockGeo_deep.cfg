SPECIFICATION Spec
CONSTANTS
  H = 3
  W = 3
  AMOUNT = 2
  STEPS = 2
INVARIANTS Tiles Additive Undone Shifts Located
CHECK_DEADLOCK FALSE
