SPECIFICATION Spec
CONSTANTS
 NAMES = {"a", "b"}
 FILES = {"f", "q"}
 NUMS = {2}
 DEPTH = 2
INVARIANTS Consistent Stops SingleAssignment
PROPERTY OnlyItsName
CHECK_DEADLOCK FALSE
