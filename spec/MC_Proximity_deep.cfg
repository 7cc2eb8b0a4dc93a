SPECIFICATION Spec
CONSTANTS
  H = 4
  W = 5
  Metrics = {"euclidean"}
  Sizes = {4, 8, 12}
  Maxima = {2000000000, 100}
  ExactUpTo = 2
  MaxTargets = 2
INVARIANTS Exact Sound Same
PROPERTY Shrinks
