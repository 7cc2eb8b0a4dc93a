SPECIFICATION Spec
CONSTANTS
  VALUES = {0, 1, 9, 2000000001}
  TYPES = {"b1", "u1", "i8", "f4"}
  NULLS = {1, 9, 2000000000, 2000000001}
  NAMES = {"a", "b"}
INVARIANTS Consistent FixedPoint Kept FilesConsistent
CHECK_DEADLOCK FALSE
