---------------------------- MODULE RegionsTrace ----------------------------
(* Region labels and polygons of recorded rasters.                           *)
EXTENDS Regions, TraceBase
VARIABLES l, fails, acts
Selected(ev, v) == v # 0 /\ v # NAN /\ (ev.has = 0 \/ \E k \in 1..Len(ev.uv) : ev.uv[k] = v)
RegionsJudge(ev) ==
  LET r == ev.r
      out == ev.out
      n == r.h * r.w
      v(b) == [i \in 1..n |-> IF r.m[b * n + i] = 1 \/ ~Selected(ev, r.d[b * n + i]) THEN NONE ELSE r.d[b * n + i]]
      lab(b) == [i \in 1..n |-> IF out.m[b * n + i] = 1 THEN 0 ELSE out.d[b * n + i]]
  IN Clause("shape", out.nb = r.nb /\ out.h = r.h /\ out.w = r.w /\ out.g = r.g)
     \cup Clause("dtype", out.dt = "u8")
     \cup Clause("null-cells", out.m = r.m)
     \cup Clause("null-fill", \A i \in 1..Len(out.m) : out.m[i] = 0 \/ out.d[i] = out.nv)
     \cup (IF Len(out.d) # r.nb * n THEN {"size"} ELSE UNION {Labelled(r.h, r.w, v(b), ev.conn, lab(b)) : b \in 0..(r.nb - 1)})
PolygonsJudge(ev) ==
  LET r == ev.r
      n == r.h * r.w
      R == 1..Len(ev.rows)
      owners(b, i) == {k \in R : ev.rows[k].band = b + 1 /\ \E j \in 1..Len(ev.rows[k].cells) : ev.rows[k].cells[j] = i}
  IN Clause("columns", Range(ev.cols) = {"value", "band", "geometry"})
     \cup Clause("crs", ev.crs = 1)
     \cup Clause("bands", \A k \in R : ev.rows[k].band \in 1..r.nb)
     \cup Clause("valid-cells-once", \A b \in 0..(r.nb - 1) : \A i \in 1..n : r.m[b * n + i] = 1 \/ Cardinality(owners(b, i)) = 1)
     \cup Clause("values", \A b \in 0..(r.nb - 1) : \A i \in 1..n : \A k \in owners(b, i) :
                              r.m[b * n + i] = 0 /\ ev.rows[k].v = r.d[b * n + i])
     \cup Clause("null-cells", \A b \in 0..(r.nb - 1) : \A i \in 1..n : r.m[b * n + i] = 0 \/ owners(b, i) = {})
     \* nothing but these cells is covered
     \cup Clause("area", \A k \in R : ev.rows[k].area = 64 * Len(ev.rows[k].cells) /\ ev.rows[k].cells # <<>>)
Judge(ev) ==
  IF ev.op = "error" THEN Clause("not-refused", ev.exc = ev.want)
  ELSE IF ev.exc # "" THEN {"raised"}
  ELSE IF ev.op = "regions" THEN RegionsJudge(ev) ELSE PolygonsJudge(ev)
Init == l = 1 /\ fails = <<>> /\ acts = [x \in {} |-> 0]
Next ==
  \/ /\ l <= Len(Trace)
     /\ LET ev == Trace[l]
            bad == Judge(ev)
        IN /\ fails' = IF bad = {} THEN fails ELSE Append(fails, [at |-> l, clauses |-> bad])
           /\ acts' = Count(acts, ev.op)
     /\ l' = l + 1
  \/ /\ l = Len(Trace) + 1
     /\ WriteVerdict(l - 1, fails, acts)
     /\ l' = l + 1
     /\ UNCHANGED <<fails, acts>>
Spec == Init /\ [][Next]_<<l, fails, acts>>
=============================================================================
