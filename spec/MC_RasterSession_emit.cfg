SPECIFICATION Spec
CONSTANTS MaxCalls = 5
          Emit = TRUE
          DTs = {"b1", "u1", "u2", "i1", "i2", "f4"}
INVARIANTS TypeOK Consistent EmitDone
