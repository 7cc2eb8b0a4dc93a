SPECIFICATION Spec
CONSTANTS
  H = 3
  W = 3
  Metrics = {"taxi", "chebyshev", "euclidean"}
  Sizes = {4, 8}
  Maxima = {2000000000, 40}
  ExactUpTo = 2
  MaxTargets = 5
INVARIANTS Exact Sound Same
PROPERTY Shrinks
