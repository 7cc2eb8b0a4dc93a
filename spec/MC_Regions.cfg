SPECIFICATION Spec
CONSTANTS
  H = 2
  W = 3
  Values = {2000000000, 1}
  Conns = {4, 8}
  AnyOrder = TRUE
INVARIANTS Right Never Refused
