SPECIFICATION Spec
CONSTANTS
  Values = {0, 1, 4}
  Steps = 2
INVARIANTS Gradient Invariant Flat
