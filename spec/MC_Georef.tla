----------------------------- MODULE MC_Georef -----------------------------
(* Rasters whose cells are tagged with the place they have on the ground:    *)
(* whatever is padded, clipped, cut in quadrants or chunks, in any order,    *)
(* every cell keeps its place.                                               *)
EXTENDS Georef
CONSTANTS N0, Steps, RX, RY
VARIABLES p, d, left
vars == <<p, d, left>>
Tag(q, i, j) == <<XAt(q, j), YAt(q, i)>>
Tags(q) == [c \in 1..(q.h * q.w) |-> Tag(q, (c - 1) \div q.w, (c - 1) % q.w)]
Init == /\ \E h \in 1..N0, w \in 1..N0 : p = [x0 |-> 8, y0 |-> 16, rx |-> RX, ry |-> RY, h |-> h, w |-> w, nb |-> 1, crs |-> 0]
        /\ d = Tags(p)
        /\ left = Steps
\* cells beyond the raster are filled with the tag of their place, too
Cut(w) ==
  LET r == [nb |-> 1, h |-> p.h, w |-> p.w]
      np == PlaceOf(p, w)
      hh == w.r1 - w.r0
      ww == w.c1 - w.c0
      cell(i) == d[i]
      none(k) == <<>>
      got == WinCells(r, w, cell, none)
  IN /\ hh > 0 /\ ww > 0
     /\ left' = left - 1
     /\ p' = np
     /\ d' = [c \in 1..(hh * ww) |-> IF got[c] = <<>> THEN Tag(np, (c - 1) \div ww, (c - 1) % ww) ELSE got[c]]
Boxes == {<<p.x0 + a, Bottom(p) + b, Right(p) + c, p.y0 + e>> : a \in {-RX, -1, 0, 1, RX}, b \in {-RY - 1, 0, 1}, c \in {-RX, 0, 1}, e \in {-RY, 0, RY + 1}}
Next ==
  /\ left > 0
  /\ \/ \E box \in Boxes : Cut(PadWindow(p, box))
     \/ \E box \in Boxes : LET w == TouchWindow(p, box) IN w.r1 > w.r0 /\ w.c1 > w.c0 /\ Cut(w)
     \/ \E q \in 0..3 : Cut(Quadrant(p.h, p.w, q))
Spec == Init /\ [][Next]_vars
InPlace == d = Tags(p)
\* padding covers what is asked for and adds no line that is not needed; clipping keeps exactly the cells touched
Covers == \A box \in Boxes : LET b == BoundsOf(PlaceOf(p, PadWindow(p, box)))
                             IN /\ b[1] <= box[1] /\ b[2] <= box[2] /\ b[3] >= box[3] /\ b[4] >= box[4]
                                /\ b[1] > Min2(box[1], p.x0 + 1) - p.rx /\ b[4] < Max2(box[4], p.y0 - 1) + p.ry
Touched == \A box \in Boxes : box[1] < box[3] /\ box[2] < box[4] =>
             LET w == TouchWindow(p, box)
             IN \A i \in 0..(p.h - 1), j \in 0..(p.w - 1) :
                  (i >= w.r0 /\ i < w.r1 /\ j >= w.c0 /\ j < w.c1)
                    <=> (p.x0 + j * p.rx < box[3] /\ p.x0 + (j + 1) * p.rx > box[1] /\ p.y0 - i * p.ry > box[2] /\ p.y0 - (i + 1) * p.ry < box[4])
Pieces == \A i \in 0..(p.h - 1), j \in 0..(p.w - 1) : Cardinality({q \in 0..3 : LET w == Quadrant(p.h, p.w, q) IN i >= w.r0 /\ i < w.r1 /\ j >= w.c0 /\ j < w.c1}) = 1
\* the cell at the coordinates of a cell is that cell
Back == \A i \in -1..p.h, j \in -1..p.w : \A o \in {"center", "ul"} : RowOf(p, YOf(p, 4 * i, o)) = i /\ ColOf(p, XOf(p, 4 * j, o)) = j
BackLr == \A i \in 0..p.h, j \in 0..p.w : RowOf(p, YOf(p, 4 * i, "lr")) = i + 1 /\ ColOf(p, XOf(p, 4 * j, "ur")) = j + 1
=============================================================================
