SPECIFICATION Spec
CONSTANTS MaxCalls = 1
          Emit = FALSE
          DTs = {"u1"}
INVARIANTS TypeOK Consistent NullsPropagate KeepsNulls SetNullIdempotent RoundTripMask
PROPERTY AtMostOneRebound
VIEW View
