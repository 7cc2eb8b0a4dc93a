SPECIFICATION Spec
CONSTANTS
  N0 = 3
  Steps = 2
  RX = 4
  RY = 4
INVARIANTS InPlace Covers Touched Pieces Back BackLr
CHECK_DEADLOCK FALSE
