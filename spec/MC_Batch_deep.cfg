SPECIFICATION Spec
CONSTANTS
 NAMES = {"a"}
 FILES = {"f", "z"}
 NUMS = {2}
 DEPTH = 3
INVARIANTS Consistent Stops SingleAssignment
PROPERTY OnlyItsName
CHECK_DEADLOCK FALSE
