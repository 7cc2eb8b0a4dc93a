------------------------------- MODULE Predict -------------------------------
(* Prediction by a linear model: output k of a row x is                      *)
(* c[k] + sum over j of w[k][j] * x[j].  Distinct weights make the order of  *)
(* the features and of the outputs visible.                                  *)
EXTENDS RasterSem
RECURSIVE DotFrom(_, _, _)
DotFrom(w, x, j) == IF j > Len(w) THEN 0 ELSE w[j] * x[j] + DotFrom(w, x, j + 1)
Output(mod, k, x) == IF \A j \in DOMAIN x : IsNum(x[j]) /\ Abs(x[j]) < 1000000 THEN mod[k].c + DotFrom(mod[k].w, x, 1) ELSE ANY

\* rasters: one row per cell, its features the bands
RowAt(r, p) == [b \in 1..r.nb |-> r.d[(b - 1) * Plane(r) + p]]
NullAt(r, p) == \E b \in 1..r.nb : r.m[(b - 1) * Plane(r) + p] = 1
PredictRaster(r, mod) ==
  LET P == Plane(r)
      K == Len(mod)
      nv == IF Masked(r) THEN DefaultNull("f8") ELSE NONE
      pos(i) == ((i - 1) % P) + 1
      out(i) == ((i - 1) \div P) + 1
      m == [i \in 1..(K * P) |-> B2I(NullAt(r, pos(i)))]
  IN [r EXCEPT !.dt = "f8", !.nv = nv, !.nb = K, !.m = m,
               !.d = [i \in 1..(K * P) |-> IF m[i] = 1 THEN nv ELSE Output(mod, out(i), RowAt(r, pos(i)))]]

\* tables: a row is a record [x] of the values of the named columns, missing ones NAN
Complete(x) == \A j \in DOMAIN x : x[j] # NAN
PredictRow(x, mod) == [k \in DOMAIN mod |-> IF Complete(x) THEN Output(mod, k, x) ELSE NAN]
PredictTable(rows, mod) == [i \in DOMAIN rows |-> PredictRow(rows[i], mod)]
\* the rows a model gets to see
Seen(rows) == SelectSeq(rows, Complete)
=============================================================================
