------------------------------ MODULE VectorOps ------------------------------
(* Tables of features in partitions.  A table is                             *)
(*   [cols, types, rows]  with rows a sequence of [a, g]: the values of the  *)
(*   columns in order and the code of the geometry.                          *)
EXTENDS VTBase, Sequences, FiniteSets, TLC
InSeq(x, s) == \E i \in DOMAIN s : s[i] = x
Pos(x, s) == CHOOSE i \in DOMAIN s : s[i] = x
Occ(s, x) == Cardinality({i \in DOMAIN s : s[i] = x})
SameBag(s, t) == Len(s) = Len(t) /\ \A i \in DOMAIN s : Occ(s, s[i]) = Occ(t, s[i])
\* name of a new identifier column (the ESRI convention)
RECURSIVE FreeId(_, _)
FreeId(cols, n) == LET c == "OBJECTID_" \o ToString(n) IN IF InSeq(c, cols) THEN FreeId(cols, n + 1) ELSE c
IdName(cols, name) == IF name # "" THEN name ELSE IF InSeq("OBJECTID", cols) THEN FreeId(cols, 1) ELSE "OBJECTID"
\* identifiers by partition: number within the partition plus a base per partition
RECURSIVE IdsFrom(_, _, _)
IdsFrom(parts, k, base) == IF k > Len(parts) THEN <<>> ELSE [j \in 1..parts[k] |-> j + (k - 1) * base] \o IdsFrom(parts, k + 1, base)
Injective(s) == \A i, j \in DOMAIN s : s[i] = s[j] => i = j

CastCol(t, c, dt, cast(_, _, _)) ==
  LET k == Pos(c, t.cols)
  IN [t EXCEPT !.types[k] = dt, !.rows = [i \in DOMAIN t.rows |-> [t.rows[i] EXCEPT !.a[k] = cast(t.rows[i].a[k], t.types[k], dt)]]]
\* geometry g becomes T[g], where T is a sequence of pairs
Image(T, g) == LET k == CHOOSE k \in DOMAIN T : T[k][1] = g IN T[k][2]
MapGeo(t, T) == [t EXCEPT !.rows = [i \in DOMAIN t.rows |-> [t.rows[i] EXCEPT !.g = Image(T, t.rows[i].g)]]]
GeoOnly(t) == [cols |-> <<>>, types |-> <<>>, rows |-> [i \in DOMAIN t.rows |-> [a |-> <<>>, g |-> t.rows[i].g]]]
Position(n, i) == IF i < 0 THEN n + i + 1 ELSE i + 1
Take(t, i) == [t EXCEPT !.rows = <<t.rows[Position(Len(t.rows), i)]>>]
AddCol(t, name, dt, vals) == [cols |-> Append(t.cols, name), types |-> Append(t.types, dt),
                              rows |-> [i \in DOMAIN t.rows |-> [t.rows[i] EXCEPT !.a = Append(@, vals[i])]]]
=============================================================================
