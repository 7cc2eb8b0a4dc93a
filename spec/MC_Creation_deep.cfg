SPECIFICATION Spec
CONSTANTS
  H = 2
  W = 3
  VALUES = {0, 5}
  NULLS = {5, 2000000000}
INVARIANTS Oriented OrientedX LayoutFree Again NullsAreEqual BurnedNulls ValidKept LikeBands
CHECK_DEADLOCK FALSE
