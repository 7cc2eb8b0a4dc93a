------------------------------ MODULE CostTrace ------------------------------
(* Cost distance: recorded solutions meet the certificate of CostDistance.   *)
EXTENDS CostDistance, TraceBase
VARIABLES l, fails, acts
\* one output raster against what it must look like
Raster(o, dt, nv, ev) ==
  Clause("dtype", o.dt = dt) \cup Clause("null-value", o.nv = nv)
  \cup Clause("grid", o.nb = 1 /\ o.h = ev.p.h /\ o.w = ev.p.w /\ o.g = ev.g)
  \cup Clause("null-cells", o.m = ev.sol.m)
  \cup Clause("null-fill", \A i \in 1..Len(o.m) : o.m[i] = 0 \/ o.d[i] = nv)
SizeOk(ev) == Len(ev.sol.cd) = N(ev.p) /\ Len(ev.sol.tr) = N(ev.p) /\ Len(ev.sol.al) = N(ev.p) /\ Len(ev.sol.m) = N(ev.p)
Judge(ev) ==
  IF ev.op = "error" THEN Clause("not-refused", ev.exc = ev.want)
  ELSE IF ev.exc # "" THEN {"raised"}
  ELSE IF ~SizeOk(ev) THEN {"size"}
  ELSE Certificate(ev.p, ev.sol)
       \cup (IF ev.op = "numpy" THEN Clause("null-cells", ev.agree = 1)
             ELSE Raster(ev.out.cd, "f8", ev.nv, ev) \cup Raster(ev.out.tr, "i1", -1, ev)
                  \cup Raster(ev.out.al, "i8", ev.snv, ev))
Init == l = 1 /\ fails = <<>> /\ acts = [x \in {} |-> 0]
Next ==
  \/ /\ l <= Len(Trace)
     /\ LET ev == Trace[l]
            bad == Judge(ev)
        IN /\ fails' = IF bad = {} THEN fails ELSE Append(fails, [at |-> l, clauses |-> bad])
           /\ acts' = Count(acts, ev.op)
     /\ l' = l + 1
  \/ /\ l = Len(Trace) + 1
     /\ WriteVerdict(l - 1, fails, acts)
     /\ l' = l + 1
     /\ UNCHANGED <<fails, acts>>
Spec == Init /\ [][Next]_<<l, fails, acts>>
=============================================================================
