SPECIFICATION Spec
CONSTANTS
  Capacity = 1
  MaxV = 4
  KeyValues = {0, 1}
  Rejected = {5}
  MaxOps = 10000
INVARIANTS Correct Refines Tournament
VIEW View
