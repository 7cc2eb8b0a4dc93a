------------------------------ MODULE BlockGeo ------------------------------
(* Geometry of blocks of a raster.  A raster p has nb bands of h x w cells   *)
(* of size rx x ry (ry counted downwards), its upper left corner at x0, y0.  *)
(* A block is a window of it, named by half open ranges of bands, rows and   *)
(* columns counted from 0; rows and columns may reach beyond the raster.     *)
EXTENDS VTBase, Sequences, FiniteSets, TLC
RECURSIVE StartsFrom(_, _, _)
StartsFrom(sizes, k, at) == IF k > Len(sizes) THEN <<>> ELSE <<<<at, at + sizes[k]>>>> \o StartsFrom(sizes, k + 1, at + sizes[k])
Ranges(sizes) == StartsFrom(sizes, 1, 0)
Block(chunks, loc) ==
  LET b == Ranges(chunks[1])[loc[1] + 1]
      r == Ranges(chunks[2])[loc[2] + 1]
      c == Ranges(chunks[3])[loc[3] + 1]
  IN [b0 |-> b[1], b1 |-> b[2], r0 |-> r[1], r1 |-> r[2], c0 |-> c[1], c1 |-> c[2], loc |-> loc]
Locs(chunks) == {<<i, j, k>> : i \in 0..(Len(chunks[1]) - 1), j \in 0..(Len(chunks[2]) - 1), k \in 0..(Len(chunks[3]) - 1)}
Rows(b) == b.r1 - b.r0
Cols(b) == b.c1 - b.c0

\* growing (or with negative amounts trimming) the four sides
CanResize(b, t, d, l, r) == Rows(b) + t + d >= 0 /\ Cols(b) + l + r >= 0
Resize(b, t, d, l, r) == [b EXCEPT !.r0 = @ - t, !.r1 = @ + d, !.c0 = @ - l, !.c1 = @ + r]
Amounts(op, a) ==
  CASE op = "pad_y" -> <<a[1], a[2], 0, 0>>
    [] op = "pad_x" -> <<0, 0, a[1], a[2]>>
    [] op = "pad" -> IF Len(a) = 1 THEN <<a[1], a[1], a[1], a[1]>> ELSE <<a[1], a[1], a[2], a[2]>>
    [] op = "shift_y" -> <<0 - a[1], a[1], 0, 0>>
    [] op = "shift_x" -> <<0, 0, 0 - a[1], a[1]>>
    [] op = "shift" -> IF Len(a) = 1 THEN <<0 - a[1], a[1], 0 - a[1], a[1]>> ELSE <<0 - a[1], a[1], 0 - a[2], a[2]>>
Can(b, op, a) == LET q == Amounts(op, a) IN CanResize(b, q[1], q[2], q[3], q[4])
Apply(b, op, a) == LET q == Amounts(op, a) IN Resize(b, q[1], q[2], q[3], q[4])

\* what a block reports
Shape(b) == <<b.b1 - b.b0, Rows(b), Cols(b)>>
Bands(b) == [i \in 1..(b.b1 - b.b0) |-> b.b0 + i - 1]
XAt(p, col) == p.x0 + col * p.rx + p.rx \div 2
YAt(p, row) == p.y0 - row * p.ry - p.ry \div 2
Xs(p, b) == [i \in 1..Cols(b) |-> XAt(p, b.c0 + i - 1)]
Ys(p, b) == [i \in 1..Rows(b) |-> YAt(p, b.r0 + i - 1)]
AffineOf(p, row, col) == <<p.rx, 0, p.x0 + col * p.rx, 0, 0 - p.ry, p.y0 - row * p.ry>>
BBox(p, b) == <<p.x0 + b.c0 * p.rx, p.y0 - b.r1 * p.ry, p.x0 + b.c1 * p.rx, p.y0 - b.r0 * p.ry>>
CellsOf(b) == {<<k, i, j>> : k \in b.b0..(b.b1 - 1), i \in b.r0..(b.r1 - 1), j \in b.c0..(b.c1 - 1)}
=============================================================================
