----------------------------- MODULE LineTrace -----------------------------
(* Recorded length rasters: the same question asked under two ways of        *)
(* splitting features and cells.                                             *)
EXTENDS LineStats, TraceBase
VARIABLES l, fails, acts
One(ev, o) ==
  LET cells == DOMAIN ev.zero
  IN Clause("data-type", o.dt = "f4")
     \cup Clause("bands", o.nb = 1)
     \cup Clause("grid", o.g = ev.g /\ o.crs = ev.crs)
     \cup IF Len(o.v) # Len(ev.zero) THEN {"cells"}
          ELSE Clause("length", \A c \in cells : InBounds(ev.lo, ev.hi, ev.w, c, o.v[c]))
               \cup Clause("zero-where-nothing-near", \A c \in cells : (\A f \in DOMAIN ev.w : ev.hi[f][c] = 0) => o.v[c] = 0)
               \cup Clause("null-cells", \A c \in cells : o.m[c] = 0)
Judge(ev) ==
  IF ev.op = "error" THEN Clause("not-refused", ev.exc = ev.want)
  ELSE IF ev.exc # "" THEN {"raised"}
  ELSE One(ev, ev.a) \cup One(ev, ev.b)
       \cup Clause("splitting", Len(ev.a.v) = Len(ev.b.v) => \A c \in DOMAIN ev.a.v : Near(ev.hi, ev.w, c, ev.a.v[c], ev.b.v[c]))
       \cup Clause("source-changed", ev.same = 1)
Init == l = 1 /\ fails = <<>> /\ acts = [x \in {} |-> 0]
Next ==
  \/ /\ l <= Len(Trace)
     /\ LET ev == Trace[l]
            bad == Judge(ev)
        IN /\ fails' = IF bad = {} THEN fails ELSE Append(fails, [at |-> l, clauses |-> bad])
           /\ acts' = Count(acts, ev.op)
     /\ l' = l + 1
  \/ /\ l = Len(Trace) + 1
     /\ WriteVerdict(l - 1, fails, acts)
     /\ l' = l + 1
     /\ UNCHANGED <<fails, acts>>
Spec == Init /\ [][Next]_<<l, fails, acts>>
=============================================================================
