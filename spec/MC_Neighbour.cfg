SPECIFICATION Spec
CONSTANTS
  H = 2
  W = 2
  Values = {0, 1}
  Shapes <- ShapesDef
  Margins = 0
INVARIANTS Assembled Laws
