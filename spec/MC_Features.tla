---------------------------- MODULE MC_Features ----------------------------
(* Design model of rasterising: a cell met by features one after the other,  *)
(* grouped into partitions that are resolved separately and then merged two  *)
(* by two; and the geometry the coverage of cells rests on.                  *)
EXTENDS Features
CONSTANTS MaxFeats, XS
VARIABLES seen,   \* values of the features covering the cell, in feature order
          parts,  \* resolved values of the closed partitions
          cur,    \* resolved value of the open partition
          tri,    \* a triangle
          Method
vars == <<seen, parts, cur, tri, Method>>
FILL == 9
Vals == {1, 2, NAN, FILL}
\* two partial results of one cell
Merge(a, b) ==
  IF a = FILL THEN b ELSE IF b = FILL THEN a
  ELSE CASE Method = "first" -> a [] Method = "last" -> b
         [] Method = "min" -> IF a = NAN THEN b ELSE IF b = NAN THEN a ELSE Min2(a, b)
         [] Method = "max" -> IF a = NAN THEN b ELSE IF b = NAN THEN a ELSE Max2(a, b)
Whole(s) == Resolve(Method, s, 1..Len(s), FILL)
RECURSIVE Fold(_)
Fold(s) == IF s = <<>> THEN FILL ELSE IF Len(s) = 1 THEN s[1] ELSE Merge(Fold(SubSeq(s, 1, Len(s) - 1)), s[Len(s)])
RECURSIVE Tree(_)
\* merged pairwise, the way a reduction tree does it
Tree(s) == IF Len(s) <= 1 THEN (IF s = <<>> THEN FILL ELSE s[1])
           ELSE Tree([i \in 1..((Len(s) + 1) \div 2) |-> IF 2 * i <= Len(s) THEN Merge(s[2 * i - 1], s[2 * i]) ELSE s[2 * i - 1]])
Pts == XS \X XS
Tris == {<<a, b, c>> \in Pts \X Pts \X Pts : Cross(a, b, c) > 0}
Init == seen = <<>> /\ parts = <<>> /\ cur = <<>> /\ tri \in Tris \cup {<<>>}
        /\ Method \in (IF tri = <<>> THEN {"first", "last", "min", "max"} ELSE {"min"})
Feature == /\ Len(seen) < MaxFeats
           /\ tri = <<>>
           /\ \E v \in Vals \ {FILL} : seen' = Append(seen, v) /\ cur' = Append(cur, v)
           /\ UNCHANGED <<parts, tri, Method>>
Close == /\ Len(parts) < MaxFeats + 1
         /\ tri = <<>>
         /\ parts' = Append(parts, Whole(cur)) /\ cur' = <<>>
         /\ UNCHANGED <<seen, tri, Method>>
Next == Feature \/ Close
Spec == Init /\ [][Next]_vars
\* partitions do not matter
Independent == LET s == Append(parts, Whole(cur)) IN Fold(s) = Whole(seen) /\ Tree(s) = Whole(seen)
\* the geometry of a triangle and the four cells of a 2 x 2 grid
C4 == {0, 1} \X {0, 1}
Geometry == tri = <<>> \/ \A c \in C4 :
  /\ PolyMeets(tri, c[1], c[2], -1) => PolyMeets(tri, c[1], c[2], 1)
  \* orientation and starting vertex do not matter
  /\ PolyMeet(tri, c[1], c[2]) = PolyMeet(<<tri[3], tri[2], tri[1]>>, c[1], c[2])
  /\ PolyMeet(tri, c[1], c[2]) = PolyMeet(<<tri[2], tri[3], tri[1]>>, c[1], c[2])
  \* a cell whose centre is inside is touched
  /\ InPoly(tri, <<U * c[2] + U \div 2, U * c[1] + U \div 2>>) # 2 \/ PolyMeets(tri, c[1], c[2], 1)
  \* edges of the triangle touch only cells the triangle touches
  /\ \A i \in 1..3 : ~SegMeets(tri[i], Cyc(tri, i), c[1], c[2], -1) \/ PolyMeets(tri, c[1], c[2], -1)
  \* touched cells lie in the bounding box
  /\ PolyMeet(tri, c[1], c[2]) # 2 \/ LET b == RectCells(BoundsOf(<<<<[v |-> tri]>>>>)) IN
       c[1] >= b.r0 /\ c[1] <= b.r1 /\ c[2] >= b.c0 /\ c[2] <= b.c1
=============================================================================
