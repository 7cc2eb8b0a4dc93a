SPECIFICATION Spec
CONSTANTS
  HMax = 2
  WMax = 4
  DMax = 1
INVARIANTS Once Whole Same Inside Nulls
CHECK_DEADLOCK FALSE
