SPECIFICATION Spec
CONSTANTS
  H = 2
  W = 2
  CellWidths = {6}
  CostValues = {2000000000, 0, 6}
  Elevations = {0}
  WithElevation = FALSE
  Conns = {8}
INVARIANTS LeastAtEnd PoppedFinal Certified OnlyLeast Hidden
CHECK_DEADLOCK FALSE
