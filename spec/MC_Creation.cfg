SPECIFICATION Spec
CONSTANTS
  H = 2
  W = 2
  VALUES = {0, 1, 5}
  NULLS = {5, 2000000000}
INVARIANTS Oriented OrientedX LayoutFree Again NullsAreEqual BurnedNulls ValidKept LikeBands
CHECK_DEADLOCK FALSE
