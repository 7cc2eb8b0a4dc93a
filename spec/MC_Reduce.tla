------------------------------ MODULE MC_Reduce ------------------------------
(* Statistics gathered from partial results that are merged in any order, as *)
(* reductions over chunks do: whatever the order, partial results are those  *)
(* of the valid values they cover, nulls contributing nothing.               *)
EXTENDS Stats
CONSTANTS Len_, Values
Quick == {-1, 0, 2}
Deep == {-2, 0, 1, 3}
VARIABLES src, parts
vars == <<src, parts>>
Empty == [n |-> 0, s |-> 0, ss |-> 0, mn |-> NOVAL, mx |-> NOVAL]
Of(v) == IF v = NOVAL THEN Empty ELSE [n |-> 1, s |-> v, ss |-> v * v, mn |-> v, mx |-> v]
Low(a, b) == IF a = NOVAL THEN b ELSE IF b = NOVAL THEN a ELSE Min2(a, b)
High(a, b) == IF a = NOVAL THEN b ELSE IF b = NOVAL THEN a ELSE Max2(a, b)
Join(a, b) == [n |-> a.n + b.n, s |-> a.s + b.s, ss |-> a.ss + b.ss, mn |-> Low(a.mn, b.mn), mx |-> High(a.mx, b.mx)]
Init == /\ src \in [1..Len_ -> Values \cup {NOVAL}]
        /\ parts = {<<{k}, Of(src[k])>> : k \in 1..Len_}
Merge == \E p \in parts, q \in parts :
           /\ p[1] # q[1]
           /\ SetMin(p[1]) < SetMin(q[1])
           /\ parts' = (parts \ {p, q}) \cup {<<p[1] \cup q[1], Join(p[2], q[2])>>}
           /\ UNCHANGED src
Spec == Init /\ [][Merge]_vars
ValOf(S) == Valids([i \in 1..Cardinality(S) |-> src[SortSet(S)[i]]])
Right == \A p \in parts :
  LET q == ValOf(p[1]) IN
  IF q = <<>> THEN p[2] = Empty
  ELSE /\ p[2].n = Stat("count", q, 1)
       /\ p[2].s = Stat("sum", q, 1)
       /\ p[2].mn = Stat("min", q, 1)
       /\ p[2].mx = Stat("max", q, 1)
       /\ FixDiv(p[2].n * p[2].ss - p[2].s * p[2].s, p[2].n * p[2].n, 64) = Stat("var", q, 64)
       /\ FixDiv(p[2].s, p[2].n, 64) = Stat("mean", q, 64)
Laws == \A p \in parts : LET q == ValOf(p[1]) IN q # <<>> =>
  /\ Stat("min", q, 8) <= Stat("median", q, 8) /\ Stat("median", q, 8) <= Stat("max", q, 8)
  /\ Stat("min", q, 8) <= Stat("mode", q, 8) /\ Stat("mode", q, 8) <= Stat("max", q, 8)
  /\ Stat("std", q, 64) * Stat("std", q, 64) <= Stat("var", q, 64 * 64)
  /\ (Stat("unique", q, 1) = 1) = (Stat("range", q, 1) = 0)
  /\ (Stat("unique", q, 1) = 1) => Stat("asm", q, 64) = 64 /\ Stat("entropy", q, 64) = 0
  /\ Stat("asm", q, 64) <= 64 /\ Stat("entropy", q, 64) >= 0
ArgLaws == \A p \in parts : LET S == p[1] IN
  LET q == [i \in 1..Cardinality(S) |-> src[SortSet(S)[i]]] IN Valids(q) # <<>> =>
  /\ q[ArgMin(q) + 1] = SeqMin(Valids(q)) /\ q[ArgMax(q) + 1] = SeqMax(Valids(q))
=============================================================================
