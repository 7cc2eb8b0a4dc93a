------------------------------- MODULE Georef -------------------------------
(* Rasters on the ground.  A raster r keeps, next to its cells, its place p: *)
(* upper left corner x0, y0, cell size rx, ry (rows run downwards), shape    *)
(* nb, h, w and CRS.  Padding, box clipping, quadrants and chunks are all    *)
(* windows: ranges of rows and columns, that may reach beyond the raster.    *)
EXTENDS BlockGeo, RasterSem
Place(p, r0, r1, c0, c1) == [p EXCEPT !.x0 = @ + c0 * p.rx, !.y0 = @ - r0 * p.ry, !.h = r1 - r0, !.w = c1 - c0]
Wh(r) == [r0 |-> 0, r1 |-> r.h, c0 |-> 0, c1 |-> r.w]
\* cells of a window of r (beyond the raster the fill of the band)
InR(r, i, j) == i >= 0 /\ i < r.h /\ j >= 0 /\ j < r.w
WinCells(r, w, cell(_), fill(_)) ==
  LET hh == w.r1 - w.r0
      ww == w.c1 - w.c0
      at(q) == LET k == (q - 1) \div (hh * ww)
                   i == w.r0 + (((q - 1) \div ww) % hh)
                   j == w.c0 + ((q - 1) % ww)
               IN IF InR(r, i, j) THEN cell(k * r.h * r.w + i * r.w + j + 1) ELSE fill(k + 1)
  IN [q \in 1..(r.nb * hh * ww) |-> at(q)]
\* windows
CeilDiv(a, b) == 0 - ((0 - a) \div b)
Over(a, b) == IF a <= 0 THEN 0 ELSE CeilDiv(a, b)
Bottom(p) == p.y0 - p.h * p.ry
Right(p) == p.x0 + p.w * p.rx
PadWindow(p, box) ==   \* box: minx, miny, maxx, maxy
  [r0 |-> 0 - Over(box[4] - p.y0, p.ry), r1 |-> p.h + Over(Bottom(p) - box[2], p.ry),
   c0 |-> 0 - Over(p.x0 - box[1], p.rx), c1 |-> p.w + Over(box[3] - Right(p), p.rx)]
TouchWindow(p, box) ==
  [r0 |-> Max2(0, (p.y0 - box[4]) \div p.ry), r1 |-> Min2(p.h, CeilDiv(p.y0 - box[2], p.ry)),
   c0 |-> Max2(0, (box[1] - p.x0) \div p.rx), c1 |-> Min2(p.w, CeilDiv(box[3] - p.x0, p.rx))]
Size1(w) == [h |-> w.r1 - w.r0, w |-> w.c1 - w.c0]
Quadrant(h, w, q) ==
  LET hh == h \div 2
      ww == w \div 2
  IN CASE q = 0 -> [r0 |-> 0, r1 |-> hh, c0 |-> 0, c1 |-> ww]
       [] q = 1 -> [r0 |-> 0, r1 |-> hh, c0 |-> ww, c1 |-> w]
       [] q = 2 -> [r0 |-> hh, r1 |-> h, c0 |-> 0, c1 |-> ww]
       [] q = 3 -> [r0 |-> hh, r1 |-> h, c0 |-> ww, c1 |-> w]
ChunkWindow(chunks, row, col) ==
  LET a == Ranges(chunks[2])[row]
      b == Ranges(chunks[3])[col]
  IN [r0 |-> a[1], r1 |-> a[2], c0 |-> b[1], c1 |-> b[2]]
PlaceOf(p, w) == Place(p, w.r0, w.r1, w.c0, w.c1)
\* what a raster at place p reports
BoundsOf(p) == <<p.x0, Bottom(p), Right(p), p.y0>>
XList(p) == [j \in 1..p.w |-> XAt(p, j - 1)]
YList(p) == [i \in 1..p.h |-> YAt(p, i - 1)]
\* a position in a raster: rows and columns in quarters, offsets in halves of a cell
OffRow(o) == CASE o = "center" -> 1 [] o \in {"ul", "ur"} -> 0 [] o \in {"ll", "lr"} -> 2
OffCol(o) == CASE o = "center" -> 1 [] o \in {"ul", "ll"} -> 0 [] o \in {"ur", "lr"} -> 2
XOf(p, col4, o) == p.x0 + ((col4 + 2 * OffCol(o)) * p.rx) \div 4
YOf(p, row4, o) == p.y0 - ((row4 + 2 * OffRow(o)) * p.ry) \div 4
ColOf(p, x) == (x - p.x0) \div p.rx
RowOf(p, y) == (p.y0 - y) \div p.ry
=============================================================================
