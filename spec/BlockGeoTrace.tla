---------------------------- MODULE BlockGeoTrace ----------------------------
(* Recorded block geometries and operations on them.                         *)
EXTENDS BlockGeo, TraceBase
VARIABLES l, fails, acts
Win(o) == [b0 |-> o.band[1], b1 |-> o.band[2], r0 |-> o.row[1], r1 |-> o.row[2], c0 |-> o.col[1], c1 |-> o.col[2], loc |-> o.loc]
Reports(p, b, o) ==
  Clause("window", Win(o) = b)
  \cup Clause("shape", o.shape = Shape(b))
  \cup Clause("band", o.bands = Bands(b))
  \cup Clause("x", o.x = Xs(p, b))
  \cup Clause("y", o.y = Ys(p, b))
  \cup Clause("affine", o.affine = AffineOf(p, b.r0, b.c0))
  \cup Clause("bbox", Rows(b) = 0 \/ Cols(b) = 0 \/ o.bbox = BBox(p, b))
  \cup Clause("crs", o.crs = p.crs)
  \cup Clause("parent-affine", o.paffine = AffineOf(p, 0, 0))
  \cup Clause("parent-shape", o.pshape = <<p.nb, p.h, p.w>>)
Judge(ev) ==
  CASE ev.op = "blocks" ->
         IF ev.exc # "" THEN {"raised"}
         ELSE Clause("number-of-blocks", ev.num = [k \in 1..3 |-> Len(ev.chunks[k])] /\ Len(ev.got) = Cardinality(Locs(ev.chunks)))
              \cup Clause("positions", {ev.got[k].loc : k \in DOMAIN ev.got} = Locs(ev.chunks) /\ \A k \in DOMAIN ev.got : ev.got[k].loc = ev.at[k])
              \cup UNION {IF ev.got[k].loc \in Locs(ev.chunks) THEN Reports(ev.p, Block(ev.chunks, ev.got[k].loc), ev.got[k]) ELSE {"positions"} : k \in DOMAIN ev.got}
    [] ev.op = "array" ->
         IF ev.fits = 0 THEN Clause("not-refused", ev.exc = "ValueError")
         ELSE IF ev.exc # "" THEN {"raised"}
         ELSE LET b == Win(ev.pre)
              IN Clause("array-x", ev.x = Xs(ev.p, b)) \cup Clause("array-y", ev.y = Ys(ev.p, b)) \cup Clause("array-band", ev.bands = Bands(b))
                 \cup Clause("array-values", ev.same = 1) \cup Clause("array-crs", ev.crs = ev.p.crs) \cup Clause("array-nodata", ev.gotnv = ev.nv)
    [] OTHER ->
         Clause("source-changed", ev.after = ev.pre)
         \cup IF ev.int = 0 THEN Clause("not-refused", ev.exc = "TypeError")
              ELSE IF ~Can(Win(ev.pre), ev.op, ev.a) THEN Clause("not-refused", ev.exc = "ValueError")
              ELSE IF ev.exc # "" THEN {"raised"}
              ELSE Reports(ev.p, Apply(Win(ev.pre), ev.op, ev.a), ev.got)
Init == l = 1 /\ fails = <<>> /\ acts = [x \in {} |-> 0]
Next ==
  \/ /\ l <= Len(Trace)
     /\ LET ev == Trace[l]
            bad == Judge(ev)
        IN /\ fails' = IF bad = {} THEN fails ELSE Append(fails, [at |-> l, clauses |-> bad])
           /\ acts' = Count(acts, ev.op)
     /\ l' = l + 1
  \/ /\ l = Len(Trace) + 1
     /\ WriteVerdict(l - 1, fails, acts)
     /\ l' = l + 1
     /\ UNCHANGED <<fails, acts>>
Spec == Init /\ [][Next]_<<l, fails, acts>>
=============================================================================
