---------------------------- MODULE GeorefTrace -----------------------------
(* Recorded georeference of rasters and of windows cut from them.            *)
EXTENDS Georef, TraceBase
VARIABLES l, fails, acts
\* everything a raster reports is what its place p says
Reports(p, o) ==
  Clause("shape", o.shape = <<p.nb, p.h, p.w>>)
  \cup Clause("x", o.x = XList(p)) \cup Clause("y", o.y = YList(p))
  \cup Clause("affine", o.affine = AffineOf(p, 0, 0))
  \cup Clause("resolution", o.res = <<p.rx, p.ry>>)
  \cup Clause("bounds", o.bounds = BoundsOf(p))
  \cup Clause("geobox", o.gbaffine = AffineOf(p, 0, 0) /\ o.gbshape = <<p.h, p.w>> /\ o.gbcrs = p.crs)
  \cup Clause("crs", o.crs = p.crs)
  \cup Clause("bands", o.bands = [k \in 1..p.nb |-> k])
\* the content of a window of r
Content(r, w, fillv(_), fillm(_), nv, o) ==
  LET cd(i) == r.d[i]
      cm(i) == r.m[i]
  IN Clause("values", o.d = WinCells(r, w, cd, fillv))
     \cup Clause("nulls", o.m = WinCells(r, w, cm, fillm))
     \cup Clause("null-value", o.nv = nv)
     \cup Clause("type", o.dt = r.dt)
PieceOf(ev, w, o) ==
  LET zero(k) == 0
  IN IF o.ok = 0 THEN {"raised"} ELSE Reports([PlaceOf(ev.p, w) EXCEPT !.nb = o.nb], o) \cup Content(ev.r, w, zero, zero, ev.r.nv, o)
\* the chunk with some of the bands
BandSub(r, b0, n) == [r EXCEPT !.nb = n, !.d = SubSeq(@, b0 * r.h * r.w + 1, (b0 + n) * r.h * r.w), !.m = SubSeq(@, b0 * r.h * r.w + 1, (b0 + n) * r.h * r.w)]
ChunkPiece(ev, k) ==
  LET at == ev.at[k]
      b == Ranges(ev.chunks[1])[at[1] + 1]
      e2 == [ev EXCEPT !.r = BandSub(ev.r, b[1], b[2] - b[1])]
  IN Clause("chunk-bands", ev.got[k].ok = 0 \/ ev.got[k].nb = b[2] - b[1]) \cup PieceOf(e2, ChunkWindow(ev.chunks, at[2] + 1, at[3] + 1), ev.got[k])
PadNull(ev) == IF ev.fill = <<>> THEN (IF ev.r.nv = NONE THEN DefaultNull(ev.r.dt) ELSE ev.r.nv) ELSE ev.r.nv
FillOf(ev, k) == IF ev.fill = <<>> THEN PadNull(ev) ELSE IF Len(ev.fill) = 1 THEN ev.fill[1] ELSE ev.fill[k]
FillNull(ev, k) == IF ev.fill = <<>> THEN 1 ELSE B2I(ev.r.nv # NONE /\ FillOf(ev, k) = ev.r.nv)
ClipOk(ev) ==
  LET w == TouchWindow(ev.p, ev.box)
      wide == [r0 |-> Max2(0, w.r0 - 1), r1 |-> Min2(ev.p.h, w.r1 + 1), c0 |-> Max2(0, w.c0 - 1), c1 |-> Min2(ev.p.w, w.c1 + 1)]
      none == TouchWindow(ev.p, <<ev.box[1] - ev.p.rx, ev.box[2] - ev.p.ry, ev.box[3] + ev.p.rx, ev.box[4] + ev.p.ry>>)
      far == none.r1 <= none.r0 \/ none.c1 <= none.c0
      \* the window the result says it is
      at == ev.got.affine
      row == (ev.p.y0 - at[6]) \div ev.p.ry
      col == (at[3] - ev.p.x0) \div ev.p.rx
      is == [r0 |-> row, r1 |-> row + ev.got.shape[2], c0 |-> col, c1 |-> col + ev.got.shape[3]]
  IN IF far THEN Clause("not-refused", ev.exc = "NoDataError" \/ (ev.exc # "" /\ (ev.p.h = 1 \/ ev.p.w = 1)))
     ELSE IF w.r1 - w.r0 >= 2 /\ w.c1 - w.c0 >= 2
          THEN IF ev.exc # "" THEN {"raised"} ELSE PieceOf(ev, w, ev.got)
     ELSE IF ev.exc # "" THEN {}   \* a box of a single row or column may be refused, or clipped with the lines next to it
     ELSE Clause("window", is.r0 <= Max2(w.r0, is.r0) /\ is.r0 >= wide.r0 /\ is.r1 <= wide.r1 /\ is.c0 >= wide.c0 /\ is.c1 <= wide.c1
                           /\ (w.r1 > w.r0 => is.r0 <= w.r0 /\ is.r1 >= w.r1) /\ (w.c1 > w.c0 => is.c0 <= w.c0 /\ is.c1 >= w.c1))
          \cup PieceOf(ev, is, ev.got)
BoxRows(ev) ==   \* rows of the table of chunk boxes
  LET nr == Len(ev.chunks[2])
      nc == Len(ev.chunks[3])
      one(b, i, j) == <<b, i, j, BoundsOf(PlaceOf(ev.p, ChunkWindow(ev.chunks, i + 1, j + 1)))>>
      bands == IF ev.bands = 1 THEN ev.p.nb ELSE 1
  IN [q \in 1..(bands * nr * nc) |-> one((q - 1) \div (nr * nc), ((q - 1) \div nc) % nr, (q - 1) % nc)]
Judge(ev) ==
  CASE ev.op = "error" -> Clause("not-refused", ev.exc \in {ev.want, "KeyError"} /\ ev.exc # "")
    [] ev.exc # "" /\ ev.op # "clip_box" -> {"raised"}
    [] ev.op = "report" -> Reports(ev.p, ev.got)
    [] ev.op = "same" -> Reports(ev.p, ev.got)   \* an operation cell by cell
    [] ev.op = "bands" -> Reports([ev.p EXCEPT !.nb = Len(ev.list)], ev.got)
         \cup Clause("values", ev.got.d = [q \in 1..(Len(ev.list) * ev.p.h * ev.p.w) |->
                LET n == ev.p.h * ev.p.w IN ev.r.d[(ev.list[(q - 1) \div n + 1] - 1) * n + ((q - 1) % n) + 1]])
    [] ev.op = "pad" ->
         LET w == PadWindow(ev.p, ev.box)
             fv(k) == FillOf(ev, k)
             fm(k) == FillNull(ev, k)
         IN Reports(PlaceOf(ev.p, w), ev.got) \cup Content(ev.r, w, fv, fm, PadNull(ev), ev.got)
    [] ev.op = "clip_box" -> ClipOk(ev)
    [] ev.op = "reproject" ->   \* onto a grid whose cells are cells of the raster's grid
         LET nv == IF ev.r.nv = NONE THEN DefaultNull(ev.r.dt) ELSE ev.r.nv
             fv(k) == nv
             one(k) == 1
             same == ev.w = Wh(ev.p)
             \* GDAL takes cells with the null value for null
             src == IF same THEN ev.r ELSE [ev.r EXCEPT !.m = [q \in DOMAIN @ |-> IF ev.r.d[q] = nv THEN 1 ELSE @[q]]]
         IN Reports(PlaceOf(ev.p, ev.w), ev.got) \cup Content(src, ev.w, fv, one, IF same THEN ev.r.nv ELSE nv, ev.got)
    [] ev.op = "quadrants" -> Clause("number", Len(ev.got) = 4)
         \cup UNION {LET w == Quadrant(ev.p.h, ev.p.w, q - 1) IN IF w.r1 = w.r0 \/ w.c1 = w.c0 THEN {} ELSE PieceOf(ev, w, ev.got[q]) : q \in 1..4}
    [] ev.op = "chunks" -> Clause("number", {ev.at[k] : k \in DOMAIN ev.at} = Locs(ev.chunks) /\ Len(ev.at) = Cardinality(Locs(ev.chunks)))
         \cup UNION {ChunkPiece(ev, k) : k \in DOMAIN ev.at}
    [] ev.op = "boxes" -> Clause("boxes", ev.got = BoxRows(ev)) \cup Clause("crs", ev.gotcrs = ev.p.crs)
    [] ev.op = "coords" -> Clause("x", ev.x = XList(ev.p)) \cup Clause("y", ev.y = YList(ev.p))
         \cup Clause("coordinate-chunks", ev.xc = <<<<1>>, <<1>>, ev.chunks[3]>> /\ ev.yc = <<<<1>>, ev.chunks[2], <<1>>>>)
    [] ev.op = "xy" -> Clause("xy", ev.gx = [k \in DOMAIN ev.col |-> XOf(ev.p, ev.col[k], ev.offset)] /\ ev.gy = [k \in DOMAIN ev.row |-> YOf(ev.p, ev.row[k], ev.offset)])
         \cup Clause("kind", ev.kind = ev.gkind)
    [] ev.op = "index" -> Clause("index", ev.gcol = [k \in DOMAIN ev.x |-> ColOf(ev.p, ev.x[k])] /\ ev.grow = [k \in DOMAIN ev.y |-> RowOf(ev.p, ev.y[k])])
         \cup Clause("kind", ev.kind = ev.gkind)
    [] ev.op = "back" -> Clause("round-trip", ev.grow = ev.row /\ ev.gcol = ev.col)
Init == l = 1 /\ fails = <<>> /\ acts = [x \in {} |-> 0]
Next ==
  \/ /\ l <= Len(Trace)
     /\ LET ev == Trace[l]
            bad == Judge(ev)
        IN /\ fails' = IF bad = {} THEN fails ELSE Append(fails, [at |-> l, clauses |-> bad])
           /\ acts' = Count(acts, ev.op)
     /\ l' = l + 1
  \/ /\ l = Len(Trace) + 1
     /\ WriteVerdict(l - 1, fails, acts)
     /\ l' = l + 1
     /\ UNCHANGED <<fails, acts>>
Spec == Init /\ [][Next]_<<l, fails, acts>>
=============================================================================
