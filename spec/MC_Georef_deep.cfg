SPECIFICATION Spec
CONSTANTS
  N0 = 5
  Steps = 3
  RX = 4
  RY = 8
INVARIANTS InPlace Covers Touched Pieces Back BackLr
CHECK_DEADLOCK FALSE
