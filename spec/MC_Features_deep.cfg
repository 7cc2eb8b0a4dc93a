SPECIFICATION Spec
CONSTANTS MaxFeats = 5
 XS = {0, 1, 5, 8, 11, 17, 20}
INVARIANTS Independent Geometry
