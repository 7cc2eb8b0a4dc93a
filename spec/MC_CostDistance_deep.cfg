SPECIFICATION Spec
CONSTANTS
  H = 2
  W = 3
  CellWidths = {4, 6}
  CostValues = {2000000000, 2, 10}
  Elevations = {0}
  WithElevation = FALSE
  Conns = {4, 8}
INVARIANTS LeastAtEnd PoppedFinal Certified OnlyLeast Hidden
CHECK_DEADLOCK FALSE
