SPECIFICATION Spec
CONSTANTS
  H = 3
  W = 2
  Values = {0, 2}
  Shapes <- ShapesDef
  Margins = 1
INVARIANTS Assembled Laws
