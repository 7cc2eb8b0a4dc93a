------------------------------ MODULE SaveTrace ------------------------------
(* Recorded savings: the raster returned, the raster opened again, the       *)
(* layout of the file; and tiles saved per chunk.                            *)
EXTENDS SaveOpen, TraceBase
VARIABLES l, fails, acts
SaveJudge(ev) ==
  LET exp == Reopened(ev.r, ev.has, ev.v, ev.k, ev.drv)
      f == FileOf(ev.r, ev.has, ev.v, ev.k, ev.drv)
      o == ev.opt
      m == ev.meta
  IN Diff(exp, ev.out)
     \cup Clause("opened-again", ev.again = ev.out)
     \cup Clause("driver", m.driver = (IF ev.drv = "COG" THEN "GTiff" ELSE ev.drv))
     \cup Clause("file-nodata", m.nv = f.nv)
     \cup Clause("file-type", m.dt = f.dt)
     \cup Clause("file-bands", m.count = f.nb)
     \cup (IF ev.drv = "HFA" THEN {}
           ELSE Clause("compression", o.compress = "any" \/ m.compress = o.compress)
                \cup Clause("block-size", o.block = <<>> \/ m.block = o.block)
                \cup Clause("striped", ev.drv # "GTiff" \/ o.tiled # 0 \/ m.tiled = 0 \/ m.block[2] = f.w)
                \cup Clause("tiled", ev.drv # "GTiff" \/ o.tiled # 1 \/ m.tiled = 1)
                \cup Clause("predictor", o.pred = 0 \/ m.pred = o.pred))
     \cup Clause("overviews", ev.drv = "COG" \/ (Len(m.over) = Len(o.over) /\ (f.h < 20 \/ f.w < 20 \/ m.over = o.over)))
     \cup Clause("source-changed", ev.r2 = ev.r)
Pad(n, w) == LET s == ToString(n) IN
             IF w = 1 \/ n > 99 THEN s ELSE IF n > 9 THEN (IF w = 3 THEN "0" \o s ELSE s) ELSE (IF w = 3 THEN "00" \o s ELSE "0" \o s)
Digits(n) == IF n <= 10 THEN 1 ELSE IF n <= 100 THEN 2 ELSE 3
NameOf(ev, b, i, j) ==
  ev.prefix \o (IF b = 0 THEN "" ELSE "_b" \o Pad(b - 1, Digits(ev.r.nb))) \o "_" \o Pad(i - 1, Digits(Len(ev.ych)))
  \o "_" \o Pad(j - 1, Digits(Len(ev.xch))) \o ev.ext
ChunksJudge(ev) ==
  LET ny == Len(ev.ych)
      nx == Len(ev.xch)
      nb == IF ev.per = 1 THEN ev.r.nb ELSE 1
      K == 1..(nb * ny * nx)
      b(k) == IF ev.per = 1 THEN ((k - 1) \div (ny * nx)) + 1 ELSE 0
      i(k) == (((k - 1) \div nx) % ny) + 1
      j(k) == ((k - 1) % nx) + 1
      exp(k) == [Reopened(Tile(ev.r, ev.ych, ev.xch, b(k), i(k), j(k)), ev.has, ev.v, ev.k, ev.drv) EXCEPT !.g = <<>>]
      \* cell size and corner
      aff(k) == <<ev.aff[1], ev.aff[2], ev.aff[1] * Before(ev.xch, j(k)) + ev.aff[3],
                  ev.aff[4], ev.aff[5], ev.aff[5] * Before(ev.ych, i(k)) + ev.aff[6]>>
  IN Clause("layout", ev.shape = (IF ev.per = 1 THEN <<nb, ny, nx>> ELSE <<ny, nx>>))
     \cup IF Len(ev.tiles) # nb * ny * nx THEN {"tiles"}
          ELSE UNION {Diff(exp(k), ev.tiles[k].out) : k \in K}
               \cup Clause("tile-corner", \A k \in K : ev.tiles[k].aff = aff(k))
               \cup Clause("tile-crs", \A k \in K : ev.tiles[k].crs = ev.crs)
               \cup Clause("tile-name", \A k \in K : ev.tiles[k].name = NameOf(ev, b(k), i(k), j(k)))
               \cup Clause("files-sorted", ev.files = [k \in K |-> ev.tiles[k].name])
Judge(ev) ==
  IF ev.op = "error" THEN Clause("not-refused", ev.exc = ev.want)
  ELSE IF ev.exc # "" THEN {"raised"}
  ELSE IF ev.op = "save" THEN SaveJudge(ev) ELSE ChunksJudge(ev)
Init == l = 1 /\ fails = <<>> /\ acts = [x \in {} |-> 0]
Next ==
  \/ /\ l <= Len(Trace)
     /\ LET ev == Trace[l]
            bad == Judge(ev)
        IN /\ fails' = IF bad = {} THEN fails ELSE Append(fails, [at |-> l, clauses |-> bad])
           /\ acts' = Count(acts, ev.op)
     /\ l' = l + 1
  \/ /\ l = Len(Trace) + 1
     /\ WriteVerdict(l - 1, fails, acts)
     /\ l' = l + 1
     /\ UNCHANGED <<fails, acts>>
Spec == Init /\ [][Next]_<<l, fails, acts>>
=============================================================================
