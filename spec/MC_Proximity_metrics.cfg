SPECIFICATION Spec
CONSTANTS
  H = 4
  W = 3
  Metrics = {"taxi", "chebyshev"}
  Sizes = {4, 8}
  Maxima = {2000000000}
  ExactUpTo = 2
  MaxTargets = 4
INVARIANTS Exact Sound Same
PROPERTY Shrinks
