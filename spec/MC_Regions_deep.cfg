SPECIFICATION Spec
CONSTANTS
  H = 3
  W = 3
  Values = {2000000000, 1}
  Conns = {4, 8}
  AnyOrder = FALSE
INVARIANTS Right Never Refused
