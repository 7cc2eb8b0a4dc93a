SPECIFICATION Spec
CONSTANTS
  Capacity = 1
  MaxV = 5
  KeyValues = {0, 1, 2000000002}
  Rejected = {6}
  MaxOps = 10000
INVARIANTS Correct Refines Tournament
VIEW View
