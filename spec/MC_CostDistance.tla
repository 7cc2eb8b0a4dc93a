-------------------------- MODULE MC_CostDistance --------------------------
(* The frontier search, one removal a step, on every small problem: it ends  *)
(* with the least costs (computed here by relaxation to a fixed point) and   *)
(* meets the certificate, and no other costs do.                             *)
EXTENDS CostDistance
CONSTANTS H, W, CellWidths, CostValues, Elevations, WithElevation, Conns
VARIABLES p, cd, tr, al, done, front
vars == <<p, cd, tr, al, done, front>>
Cells0 == 1..(H * W)
INF == 1000000000
Problems == [h : {H}, w : {W}, conn : Conns, c : [Cells0 -> CostValues], ry : {4}, rx : CellWidths,
             e : IF WithElevation THEN [Cells0 -> Elevations] ELSE {<<>>},
             s : {s \in [Cells0 -> {NONE, 7, 8}] : Cardinality({i \in Cells0 : s[i] # NONE}) \in {1, 2}
                  /\ \A i, j \in Cells0 : (s[i] = 8 /\ s[j] = 7) => j < i}]
Init == /\ p \in Problems
        /\ cd = [i \in Cells0 |-> IF IsSource(p, i) THEN 0 ELSE INF]
        /\ tr = [i \in Cells0 |-> IF IsSource(p, i) THEN 0 ELSE -1]
        /\ al = p.s
        /\ done = {}
        /\ front = {i \in Cells0 : IsSource(p, i)}
Better(i, k) == /\ Allowed(p, i, k) /\ Step(p, i, k) \notin done
                /\ cd[i] + StepCost(p, i, k) < cd[Step(p, i, k)]
Back(k) == ((k + 3) % 8) + 1
From(i, j) == CHOOSE k \in 1..8 : Step(p, i, k) = j
Pop(i) ==
  LET imp == {Step(p, i, k) : k \in {k \in Dirs(p) : Better(i, k)}} IN
  /\ \A j \in front : cd[i] <= cd[j]
  /\ done' = done \cup {i}
  /\ front' = (front \ {i}) \cup imp
  /\ cd' = [j \in Cells0 |-> IF j \in imp THEN cd[i] + StepCost(p, i, From(i, j)) ELSE cd[j]]
  /\ tr' = [j \in Cells0 |-> IF j \in imp THEN Back(From(i, j)) ELSE tr[j]]
  /\ al' = [j \in Cells0 |-> IF j \in imp THEN al[i] ELSE al[j]]
  /\ UNCHANGED p
Next == \E i \in front : Pop(i)
Spec == Init /\ [][Next]_vars
\* least costs by relaxation
Relax(f) == [j \in Cells0 |-> SetMin({f[j]} \cup {f[Step(p, j, k)] + StepCost(p, j, k) :
                                k \in {k \in Dirs(p) : Allowed(p, j, k) /\ f[Step(p, j, k)] # INF}})]
RECURSIVE Fixed(_, _)
Fixed(f, n) == IF n = 0 THEN f ELSE Fixed(TLCEval(Relax(f)), n - 1)
Best == TLCEval(Fixed([i \in Cells0 |-> IF IsSource(p, i) THEN 0 ELSE INF], H * W))
Null(i) == cd[i] = INF \/ p.c[i] = NONE
Sol == [cd |-> cd, tr |-> tr, al |-> al, m |-> [i \in Cells0 |-> IF Null(i) THEN 1 ELSE 0]]
Ends == front = {}
LeastAtEnd == Ends => LET b == Best IN \A i \in Cells0 : Null(i) \/ Abs(cd[i] - b[i]) <= 8
PoppedFinal == LET b == Best IN \A i \in done : cd[i] = INF \/ p.c[i] = NONE \/ Abs(cd[i] - b[i]) <= 8
Certified == Ends => Certificate(p, Sol) = {}
\* neither a dearer nor a cheaper cost is accepted, nor a lost or invented cell
Wrong(i, d) == [Sol EXCEPT !.cd[i] = @ + d]
OnlyLeast == Ends => \A i \in Cells0 : Null(i) \/ (\A d \in {-2000, 2000} : Certificate(p, Wrong(i, d)) # {})
Hidden == Ends => \A i \in Cells0 : Certificate(p, [Sol EXCEPT !.m[i] = 1 - @]) # {} \/
                                    (~Null(i) /\ ~IsSource(p, i) /\ \A k \in Dirs(p) : Allowed(p, i, k) => Null(Step(p, i, k)))
=============================================================================
