---------------------------- MODULE CostDistance ----------------------------
(* Least accumulated cost from a set of sources over a grid of costs.        *)
(* A problem is [h, w, conn, c, ry, rx, e, s]:  c the costs times two, NONE  *)
(* at a barrier; ry, rx the cell size and e the elevations in quarters, e    *)
(* empty without elevation and NONE where it is null; s the source values,   *)
(* NONE where there is no source.  Cells are numbered from 1 by rows.        *)
(* A solution is [cd, tr, al, m]: the accumulated cost times 16384, the      *)
(* direction 1..8 of the next cell on the way back (1 right, then clockwise),*)
(* 0 at sources, the source's value, and m = 1 where there is none of these. *)
EXTENDS VTBase
\* floor of the square root
RECURSIVE RootIn(_, _, _)
RootIn(n, lo, hi) == IF lo >= hi THEN lo ELSE
  LET mid == (lo + hi + 1) \div 2 IN IF mid * mid <= n THEN RootIn(n, mid, hi) ELSE RootIn(n, lo, mid - 1)
Root(n) == RootIn(n, 0, 46340)

N(p) == p.h * p.w
Dir == << <<0, 1>>, <<1, 1>>, <<1, 0>>, <<1, -1>>, <<0, -1>>, <<-1, -1>>, <<-1, 0>>, <<-1, 1>> >>
Dirs(p) == IF p.conn = 4 THEN {1, 3, 5, 7} ELSE 1..8
\* the cell in a direction, or 0
Step(p, i, k) ==
  LET y == ((i - 1) \div p.w) + Dir[k][1]
      x == ((i - 1) % p.w) + Dir[k][2]
  IN IF y < 0 \/ x < 0 \/ y >= p.h \/ x >= p.w THEN 0 ELSE y * p.w + x + 1
\* the length of a step times 4096
Len2(p, i, k) ==
  LET j == Step(p, i, k)
      dy == Dir[k][1] * p.ry
      dx == Dir[k][2] * p.rx
      dz == IF p.e = <<>> THEN 0 ELSE p.e[j] - p.e[i]
  IN dy * dy + dx * dx + dz * dz
Length(p, i, k) == Root(Len2(p, i, k) * 1048576)
Passable(p, i) == p.c[i] # NONE /\ (p.e = <<>> \/ p.e[i] # NONE)
StepCost(p, i, k) == Length(p, i, k) * (p.c[i] + p.c[Step(p, i, k)])
Slack(p, i, k) == p.c[i] + p.c[Step(p, i, k)] + 2
Allowed(p, i, k) == k \in Dirs(p) /\ Step(p, i, k) # 0 /\ Passable(p, i) /\ Passable(p, Step(p, i, k))
IsSource(p, i) == p.s[i] # NONE

\* ---- the certificate: what makes a solution the least-cost one
RECURSIVE Leads(_, _, _, _)
Leads(p, sol, i, n) == \/ sol.tr[i] = 0
                       \/ n > 0 /\ Leads(p, sol, Step(p, i, sol.tr[i]), n - 1)
Certificate(p, sol) ==
  LET C == 1..N(p)
      R == {i \in C : sol.m[i] = 0}
      S == {i \in C : IsSource(p, i) /\ (p.c[i] # NONE)}
      good(i) == sol.tr[i] \in 1..8 /\ Allowed(p, i, sol.tr[i]) /\ Step(p, i, sol.tr[i]) \in R
      links == \A i \in R \ S : good(i)
  IN Clause("barrier-null", \A i \in C : p.c[i] # NONE \/ sol.m[i] = 1)
     \cup Clause("sources", \A i \in S : sol.m[i] = 0 /\ sol.cd[i] = 0 /\ sol.tr[i] = 0 /\ sol.al[i] = p.s[i])
     \cup Clause("traceback", links)
     \cup (IF ~links THEN {} ELSE
          Clause("path-cost", \A i \in R \ S :
                   Abs(sol.cd[i] - sol.cd[Step(p, i, sol.tr[i])] - StepCost(p, i, sol.tr[i])) <= Slack(p, i, sol.tr[i]))
          \cup Clause("allocation", \A i \in R \ S : sol.al[i] = sol.al[Step(p, i, sol.tr[i])])
          \cup Clause("leads-to-source", \A i \in R : Leads(p, sol, i, N(p))))
     \cup Clause("reached", \A i \in R : \A k \in Dirs(p) : Allowed(p, i, k) => Step(p, i, k) \in R)
     \cup Clause("least", \A i \in R : \A k \in Dirs(p) :
                   IF Allowed(p, i, k)
                   THEN LET j == Step(p, i, k) IN j \notin R \/ sol.cd[j] <= sol.cd[i] + StepCost(p, i, k) + Slack(p, i, k)
                   ELSE TRUE)
=============================================================================
