SPECIFICATION Spec
CONSTANTS
  Len_ = 5
  Values <- Deep
INVARIANTS Right Laws ArgLaws
