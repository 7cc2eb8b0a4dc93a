------------------------------ MODULE MC_Mosaic ------------------------------
(* The painting of one cell by merging neighbouring partial results in any   *)
(* order: whatever the grouping, the final value is the declarative one.     *)
EXTENDS Mosaic
CONSTANTS MaxIn, Values, Null
VARIABLES src, parts, method
vars == <<src, parts, method>>
Init == /\ method \in {"first", "last", "min", "max", "sum"}
        /\ \E n \in 1..MaxIn : src \in [1..n -> Values \cup {Null}]
        /\ parts = [k \in 1..Len(src) |-> <<k, k, src[k]>>]
Merge == \E k \in 1..(Len(parts) - 1) :
           /\ parts' = [j \in 1..(Len(parts) - 1) |->
                 IF j < k THEN parts[j]
                 ELSE IF j = k THEN <<parts[k][1], parts[k + 1][2],
                                      Combine(parts[k][3], parts[k + 1][3], method, "u1", Null)>>
                 ELSE parts[j + 1]]
           /\ UNCHANGED <<src, method>>
Spec == Init /\ [][Merge]_vars
\* every partial result is the painting of the inputs it stands for
PartsRight == \A k \in 1..Len(parts) :
   method = "sum" \/ parts[k][3] = Paint(SubSeq(src, parts[k][1], parts[k][2]), method, "u1", Null)
\* a sum may meet the null value on the way; it is right when it never does
SumRight == (method = "sum" /\ Len(parts) = 1) =>
   \/ parts[1][3] = Paint(src, method, "u1", Null)
   \/ \E a \in 1..Len(src), b \in 1..Len(src) : a <= b /\ Valid(SubSeq(src, a, b), Null) # {}
        /\ Paint(SubSeq(src, a, b), "sum", "u1", Null) = Null
NoInventedValue == method \in {"first", "last", "min", "max"} =>
   \A k \in 1..Len(parts) : parts[k][3] \in {src[j] : j \in parts[k][1]..parts[k][2]}
NullIffAllNull == method # "sum" => \A k \in 1..Len(parts) :
   (parts[k][3] = Null) = (\A j \in parts[k][1]..parts[k][2] : src[j] = Null)
=============================================================================
