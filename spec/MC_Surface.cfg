SPECIFICATION Spec
CONSTANTS
  Values = {0, 3}
  Steps = 2
INVARIANTS Gradient Invariant Flat
