SPECIFICATION Spec
CONSTANTS MaxFeats = 3
 XS = {1, 5, 11, 17}
INVARIANTS Independent Geometry
