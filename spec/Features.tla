------------------------------ MODULE Features ------------------------------
(* Vector features on a grid of cells of U x U units; x runs along the       *)
(* columns and y along the rows, the origin being the corner of cell (0,0).  *)
(* A feature is a sequence of parts [k, v]: convex polygons ("poly"), lines  *)
(* ("line") and points ("point") given by their vertices.                    *)
EXTENDS Neighbour
U == 8
Cross(a, b, p) == (b[1] - a[1]) * (p[2] - a[2]) - (b[2] - a[2]) * (p[1] - a[1])
Cyc(v, i) == v[(i % Len(v)) + 1]
Xs(v) == {v[i][1] : i \in 1..Len(v)}
Ys(v) == {v[i][2] : i \in 1..Len(v)}
\* where a point is: 2 inside, 1 on the boundary, 0 outside a convex polygon
InPoly(v, p) ==
  LET cs == {Cross(v[i], Cyc(v, i), p) : i \in 1..Len(v)}
  IN IF (\A c \in cs : c > 0) \/ (\A c \in cs : c < 0) THEN 2
     ELSE IF (\E c \in cs : c > 0) /\ (\E c \in cs : c < 0) THEN 0 ELSE 1
\* GDAL decides about overlaps of less than 1% of a cell either way, so cells
\* are taken smaller (m = -1) or larger (m = 1) by 1/4 unit: all in quarter units
Q(p) == <<4 * p[1], 4 * p[2]>>
Corners(y, x, m) == LET X0 == 4 * U * x - m X1 == 4 * U * (x + 1) + m Y0 == 4 * U * y - m Y1 == 4 * U * (y + 1) + m
                    IN {<<X0, Y0>>, <<X1, Y0>>, <<X0, Y1>>, <<X1, Y1>>}
\* how a cell and the bounding box of vertices meet
BoxMeets(v, y, x, m) ==
  /\ 4 * SetMax(Xs(v)) >= 4 * U * x - m /\ 4 * SetMin(Xs(v)) <= 4 * U * (x + 1) + m
  /\ 4 * SetMax(Ys(v)) >= 4 * U * y - m /\ 4 * SetMin(Ys(v)) <= 4 * U * (y + 1) + m
\* a line through a and b leaves corners of the cell on both sides or touches one
LineMeets(a, b, y, x, m) ==
  LET cs == {Cross(Q(a), Q(b), p) : p \in Corners(y, x, m)} IN (\E c \in cs : c >= 0) /\ (\E c \in cs : c <= 0)
SegMeets(a, b, y, x, m) == BoxMeets(<<a, b>>, y, x, m) /\ LineMeets(a, b, y, x, m)
\* a cell and a convex polygon meet when nothing separates them
PolyMeets(v, y, x, m) ==
  LET s == IF \E i \in 1..Len(v) : Cross(v[1], v[2], v[i]) > 0 THEN 1 ELSE -1
  IN /\ BoxMeets(v, y, x, m)
     /\ \A i \in 1..Len(v) : \E p \in Corners(y, x, m) : s * Cross(Q(v[i]), Q(Cyc(v, i)), p) >= 0
Three(inner, outer) == IF inner THEN 2 ELSE IF outer THEN 1 ELSE 0
BoxMeet(v, y, x) == Three(BoxMeets(v, y, x, -1), BoxMeets(v, y, x, 1))
SegMeet(a, b, y, x) == Three(SegMeets(a, b, y, x, -1), SegMeets(a, b, y, x, 1))
PolyMeet(v, y, x) == Three(PolyMeets(v, y, x, -1), PolyMeets(v, y, x, 1))
\* 2 the part covers the cell, 1 it depends on rounding, 0 it does not
CoverPart(p, y, x, touched) ==
  CASE p.k = "point" -> BoxMeet(p.v, y, x)
    [] p.k = "line" -> IF touched THEN SetMax({SegMeet(p.v[i], p.v[i + 1], y, x) : i \in 1..(Len(p.v) - 1)})
                       ELSE Min2(1, BoxMeet(p.v, y, x))
    [] p.k = "poly" -> IF touched THEN PolyMeet(p.v, y, x) ELSE InPoly(p.v, <<U * x + U \div 2, U * y + U \div 2>>)
Cover(f, y, x, touched) == SetMax({0} \cup {CoverPart(f[j], y, x, touched) : j \in 1..Len(f)})
Must(fs, y, x, touched) == {i \in 1..Len(fs) : Cover(fs[i], y, x, touched) = 2}
May(fs, y, x, touched) == {i \in 1..Len(fs) : Cover(fs[i], y, x, touched) = 1}
\* the value of a cell covered by the features S
Resolve(method, vals, S, null) ==
  LET V == {vals[i] : i \in S} \ {NAN}
  IN IF S = {} THEN null
     ELSE CASE method = "first" -> vals[SetMin(S)]
            [] method = "last" -> vals[SetMax(S)]
            [] method = "min" -> IF V = {} THEN NAN ELSE SetMin(V)
            [] method = "max" -> IF V = {} THEN NAN ELSE SetMax(V)
\* the values a cell may have
CellVals(method, vals, must, may, null) ==
  {Resolve(method, vals, must \cup s, null) : s \in SUBSET may}
\* the cells a rectangle (x0, y0, x1, y1) overlaps: first and last row and column
FloorU(a) == a \div U
CeilU(a) == -((-a) \div U)
RectCells(b) == [r0 |-> FloorU(b[2]), r1 |-> CeilU(b[4]) - 1, c0 |-> FloorU(b[1]), c1 |-> CeilU(b[3]) - 1]
AllVerts(fs) == UNION {UNION {{fs[i][j].v[k] : k \in 1..Len(fs[i][j].v)} : j \in 1..Len(fs[i])} : i \in 1..Len(fs)}
BoundsOf(fs) == LET V == AllVerts(fs) IN
  <<SetMin({p[1] : p \in V}), SetMin({p[2] : p \in V}), SetMax({p[1] : p \in V}), SetMax({p[2] : p \in V})>>
=============================================================================
