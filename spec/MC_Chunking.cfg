SPECIFICATION Spec
CONSTANTS H = 2
 W = 2
 VALS = {0, 1}
 CALLS = {"binary", "halo", "coarsen", "total"}
 BROKEN = "no"
INVARIANTS SameMeaning Partition Finer
CHECK_DEADLOCK FALSE
