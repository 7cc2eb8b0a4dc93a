SPECIFICATION Spec
CONSTANTS
  Len_ = 4
  Values <- Quick
INVARIANTS Right Laws ArgLaws
