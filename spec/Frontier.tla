------------------------------ MODULE Frontier ------------------------------
(* The updatable priority queue: a map from the values held to their keys.   *)
EXTENDS VTBase
Held(q) == DOMAIN q
Keys(q) == {q[v] : v \in Held(q)}
Put(q, k, v) == (v :> k) @@ q
Drop(q, v) == [w \in Held(q) \ {v} |-> q[w]]
Known(v, maxv) == v >= 0 /\ v <= maxv
\* the flag and the queue after an insertion
PushFlag(q, v, maxv) == IF ~Known(v, maxv) THEN -1 ELSE IF v \in Held(q) THEN 0 ELSE 1
PushTo(q, k, v, maxv) == IF Known(v, maxv) THEN Put(q, k, v) ELSE q
LowerFlag(q, k, v, maxv) == IF ~Known(v, maxv) THEN -1 ELSE IF v \notin Held(q) THEN 1 ELSE IF k < q[v] THEN 1 ELSE 0
LowerTo(q, k, v, maxv) == IF LowerFlag(q, k, v, maxv) = 1 THEN Put(q, k, v) ELSE q
\* what a removal may return
PopOk(q, k, v) == IF Held(q) = {} THEN k = PINF
                  ELSE v \in Held(q) /\ q[v] = k /\ k = SetMin(Keys(q))
PopTo(q, v) == IF Held(q) = {} THEN q ELSE Drop(q, v)
=============================================================================
