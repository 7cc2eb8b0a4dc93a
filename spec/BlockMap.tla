------------------------------ MODULE BlockMap ------------------------------
(* Functions mapped over the blocks of rasters, with or without overlap.     *)
(* The mapped function is opaque: all that is known is that equal arguments  *)
(* give equal results.  Specified are the arguments it must be called with   *)
(* (which blocks, seeing which cells, masks and places) and the raster that  *)
(* its results are put together to.                                          *)
(* A map is [bnd, bv, dep]: how the outside of a raster is filled and with   *)
(* which value, and the overlap <<top, bottom, left, right>>.                *)
EXTENDS BlockGeo, RasterSem

Fill == -1
\* the cell 0..n-1 that position i of an axis of n cells shows
Src(i, n, bnd) ==
  IF i \in 0..(n - 1) THEN i
  ELSE CASE bnd = "reflect" -> IF i < 0 THEN -1 - i ELSE 2 * n - 1 - i
         [] bnd = "nearest" -> IF i < 0 THEN 0 ELSE n - 1
         [] bnd = "periodic" -> i % n
         [] OTHER -> Fill
\* the cells a block shows: grown on all sides, within the raster if the outside is not filled
Grown(r, b, mp) ==
  LET g == Resize(b, mp.dep[1], mp.dep[2], mp.dep[3], mp.dep[4])
  IN IF mp.bnd # "none" THEN g
     ELSE [g EXCEPT !.r0 = Max2(@, 0), !.r1 = Min2(@, r.h), !.c0 = Max2(@, 0), !.c1 = Min2(@, r.w)]
At(r, k, i, j) == k * Plane(r) + i * r.w + j + 1
Spread(r, g, f(_, _, _)) ==   \* the cells of a window in reading order
  LET rows == Rows(g)
      cols == Cols(g)
  IN [q \in 1..((g.b1 - g.b0) * rows * cols) |->
        f(g.b0 + (q - 1) \div (rows * cols), g.r0 + (((q - 1) \div cols) % rows), g.c0 + ((q - 1) % cols))]
FillValue(r, mp) == IF mp.bnd = "null" THEN (IF r.nv = NONE THEN DefaultNull(r.dt) ELSE r.nv) ELSE mp.bv
FillMask(r, mp) == IF mp.bnd = "null" THEN 1 ELSE B2I(r.nv # NONE /\ mp.bv = r.nv)
View(r, g, mp) ==
  LET v(k, i, j) == LET a == Src(i, r.h, mp.bnd)
                        b == Src(j, r.w, mp.bnd)
                    IN IF a = Fill \/ b = Fill THEN FillValue(r, mp) ELSE r.d[At(r, k, a, b)]
  IN Spread(r, g, v)
MaskView(r, g, mp) ==
  LET v(k, i, j) == LET a == Src(i, r.h, mp.bnd)
                        b == Src(j, r.w, mp.bnd)
                    IN IF a = Fill \/ b = Fill THEN FillMask(r, mp) ELSE r.m[At(r, k, a, b)]
  IN Spread(r, g, v)

\* the null value of the result
OutNull(rs, given, nv, dt) ==
  IF given = 1 THEN nv
  ELSE IF Len(rs) = 1 /\ rs[1].dt = dt THEN rs[1].nv
  ELSE DefaultNull(dt)
\* where a cell of the raster lies in the result of a grown block with ob bands (numbered from kb)
Within(g, kb, k, i, j) == (k - kb) * Rows(g) * Cols(g) + (i - g.r0) * Cols(g) + (j - g.c0) + 1
\* sizes of chunks: parts of n cells, each as deep as the overlap
Parts(sizes, n, least) == SumSeq(sizes) = n /\ \A k \in DOMAIN sizes : sizes[k] >= Max2(1, least)
\* overlap needs chunks as deep as it; others are used as they are
UsedChunks(chunks, used, r, mp) ==
  LET dy == Max2(mp.dep[1], mp.dep[2])
      dx == Max2(mp.dep[3], mp.dep[4])
  IN /\ used[1] = chunks[1]
     /\ Parts(used[2], r.h, dy) /\ Parts(used[3], r.w, dx)
     /\ ((\A k \in DOMAIN chunks[2] : chunks[2][k] >= dy) => used[2] = chunks[2])
     /\ ((\A k \in DOMAIN chunks[3] : chunks[3][k] >= dx) => used[3] = chunks[3])
CanOverlap(r, mp) == Max2(mp.dep[1], mp.dep[2]) <= r.h /\ Max2(mp.dep[3], mp.dep[4]) <= r.w

\* requests that are refused, and how
Refused ==
  [none |-> "ValueError", reserved |-> "ValueError", dask |-> "ValueError", conflict |-> "ValueError",
   outbands |-> "ValueError", overlapbands |-> "ValueError", negative |-> "ValueError", depthtype |-> "TypeError",
   uneven |-> "ValueError", banddepth |-> "ValueError", axis |-> "ValueError", nulltext |-> "ValueError",
   boundary |-> "ValueError", shape |-> "ValueError", grid |-> "ValueError", wrongbands |-> "ValueError",
   wrongmask |-> "ValueError", nopair |-> "ValueError", toodeep |-> "ValueError"]
=============================================================================
