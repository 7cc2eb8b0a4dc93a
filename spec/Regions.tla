------------------------------ MODULE Regions ------------------------------
(* Connected cells of equal value, and the polygons they make.               *)
EXTENDS VTBase
\* neighbours of cell i (from 1, by rows) of an h by w plane
Around(h, w, i, conn) ==
  LET y == (i - 1) \div w x == (i - 1) % w
      near == {<<a, b>> \in {-1, 0, 1} \X {-1, 0, 1} : (a # 0 \/ b # 0) /\ (conn = 8 \/ a = 0 \/ b = 0)}
  IN {(y + d[1]) * w + x + d[2] + 1 : d \in {d \in near : y + d[1] >= 0 /\ y + d[1] < h /\ x + d[2] >= 0 /\ x + d[2] < w}}
\* v[i]: the value, NONE where the cell belongs to no region.
\* The component of a cell is named by its smallest cell.
Step1(h, w, v, conn, f) ==
  [i \in DOMAIN f |-> IF v[i] = NONE THEN 0 ELSE SetMin({f[i]} \cup {f[j] : j \in {j \in Around(h, w, i, conn) : v[j] = v[i]}})]
RECURSIVE Settle(_, _, _, _, _)
Settle(h, w, v, conn, f) == LET g == TLCEval(Step1(h, w, v, conn, f)) IN IF g = f THEN f ELSE Settle(h, w, v, conn, g)
Components(h, w, v, conn) == Settle(h, w, v, conn, TLCEval([i \in 1..(h * w) |-> IF v[i] = NONE THEN 0 ELSE i]))
\* labels name the components: 0 outside
Labelled(h, w, v, conn, lab) ==
  LET c == Components(h, w, v, conn)
      C == 1..(h * w)
  IN Clause("unlabelled", \A i \in C : v[i] # NONE \/ lab[i] = 0)
     \cup Clause("positive", \A i \in C : v[i] = NONE \/ lab[i] > 0)
     \cup Clause("joined", \A i \in C : v[i] = NONE \/ lab[i] = lab[c[i]])
     \cup Clause("distinct", \A i, j \in {i \in C : v[i] # NONE /\ c[i] = i} : i = j \/ lab[i] # lab[j])
=============================================================================
