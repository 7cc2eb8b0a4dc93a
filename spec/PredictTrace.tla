----------------------------- MODULE PredictTrace -----------------------------
(* Recorded predictions over rasters and tables.                             *)
EXTENDS Predict, TraceBase
VARIABLES l, fails, acts
CountIn(s, x) == Cardinality({i \in DOMAIN s : s[i] = x})
RasterJudge(ev) ==
  LET P == Plane(ev.r)
      rows == SelectSeq([p \in 1..P |-> IF NullAt(ev.r, p) THEN <<>> ELSE RowAt(ev.r, p)], LAMBDA x : x # <<>>)
  IN Diff(PredictRaster(ev.r, ev.mod), ev.out)
     \cup Clause("rows-seen", \A i \in DOMAIN rows : CountIn(ev.seen, rows[i]) >= CountIn(rows, rows[i]))
     \cup Clause("crs", ev.ocrs = ev.crs)
     \cup Clause("source-changed", ev.r2 = ev.r)
TableJudge(ev) ==
  LET s == Seen(ev.rows)
  IN Clause("predictions", ev.out = PredictTable(ev.rows, ev.mod))
     \cup Clause("rows-seen", \A i \in DOMAIN s : CountIn(ev.seen, s[i]) >= CountIn(s, s[i]))
     \cup Clause("incomplete-row-seen", \A i \in DOMAIN ev.seen : Complete(ev.seen[i]))
     \cup Clause("columns", ev.cols = ev.oldcols \o [k \in DOMAIN ev.mod |-> ev.prefix \o ToString(k)])
     \cup Clause("announced-columns", ev.meta = ev.cols)
     \cup Clause("prediction-type", \A k \in DOMAIN ev.types : ev.types[k] = "float64")
     \cup Clause("other-columns", ev.kept = 1)
     \cup Clause("source-changed", ev.src = 1)
Judge(ev) ==
  IF ev.op = "error" THEN Clause("not-refused", ev.exc = ev.want)
  ELSE IF ev.exc # "" THEN {"raised"}
  ELSE IF ev.op = "raster" THEN RasterJudge(ev) ELSE TableJudge(ev)
Init == l = 1 /\ fails = <<>> /\ acts = [x \in {} |-> 0]
Next ==
  \/ /\ l <= Len(Trace)
     /\ LET ev == Trace[l]
            bad == Judge(ev)
        IN /\ fails' = IF bad = {} THEN fails ELSE Append(fails, [at |-> l, clauses |-> bad])
           /\ acts' = Count(acts, ev.op)
     /\ l' = l + 1
  \/ /\ l = Len(Trace) + 1
     /\ WriteVerdict(l - 1, fails, acts)
     /\ l' = l + 1
     /\ UNCHANGED <<fails, acts>>
Spec == Init /\ [][Next]_<<l, fails, acts>>
=============================================================================
