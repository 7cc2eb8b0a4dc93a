SPECIFICATION Spec
CONSTANTS
  HMax = 1
  WMax = 4
  DMax = 2
INVARIANTS Once Whole Same Inside Nulls
CHECK_DEADLOCK FALSE
