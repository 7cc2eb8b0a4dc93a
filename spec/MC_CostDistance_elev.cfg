SPECIFICATION Spec
CONSTANTS
  H = 2
  W = 2
  CellWidths = {4}
  CostValues = {0, 4}
  Elevations = {2000000000, 0, 12}
  WithElevation = TRUE
  Conns = {8}
INVARIANTS LeastAtEnd PoppedFinal Certified OnlyLeast Hidden
CHECK_DEADLOCK FALSE
