SPECIFICATION Spec
CONSTANTS MaxIn = 4
          Values = {0, 1, 200}
          Null = 255
INVARIANTS PartsRight SumRight NoInventedValue NullIffAllNull
