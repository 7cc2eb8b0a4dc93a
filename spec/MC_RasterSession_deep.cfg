SPECIFICATION Spec
CONSTANTS MaxCalls = 1
          Emit = FALSE
          DTs = {"b1", "u1", "f4"}
INVARIANTS TypeOK Consistent NullsPropagate KeepsNulls SetNullIdempotent RoundTripMask
PROPERTY AtMostOneRebound
VIEW View
