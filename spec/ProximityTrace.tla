--------------------------- MODULE ProximityTrace ---------------------------
(* Proximity, allocation and direction rasters against Proximity.            *)
EXTENDS Proximity, TraceBase
VARIABLES l, fails, acts
Finite(v) == v \notin {NAN, PINF, NINF}
IsTarget(ev, v, m) == m = 0 /\ Finite(v) /\ (IF ev.tv = <<>> THEN v # 0 ELSE \E k \in 1..Len(ev.tv) : ev.tv[k] = v)
Same(p, a, b) == IF a = NONE \/ b = NONE THEN a = b ELSE IF p.met = "circle" THEN Abs(a - b) <= 3 ELSE a = b
Common(o, dt, nv, ev) ==
  Clause("dtype", o.dt = dt) \cup Clause("null-value", o.nv = nv)
  \cup Clause("shape", o.nb = ev.r.nb /\ o.h = ev.r.h /\ o.w = ev.r.w /\ o.g = ev.r.g)
  \cup Clause("null-fill", \A i \in 1..Len(o.m) : o.m[i] = 0 \/ o.fill[i] = nv)
\* one band
BandJudge(ev, b) ==
  LET n == ev.r.h * ev.r.w
      off == b * n
      t == [i \in 1..n |-> IsTarget(ev, ev.r.d[off + i], ev.r.m[off + i])]
      p == [h |-> ev.r.h, w |-> ev.r.w, ry |-> ev.ry, rx |-> ev.rx, met |-> ev.met, mx |-> ev.mx, tab |-> ev.tab, t |-> t]
      near == [i \in 1..n |-> Nearest(p, i)]
      obs == [i \in 1..n |-> IF ev.prox.m[off + i] = 1 THEN NONE ELSE ev.prox.q[off + i]]
      exact == \A i \in 1..n : Same(p, near[i], obs[i])
      swept == ev.block = 1 /\ ev.met = "euclidean" /\ obs = Sweep(p)
      at(i) == {j \in Targets(p) : obs[i] # NONE /\ Same(p, Dist2(p, i, j), obs[i])}
      alloc(i) == LET v == ev.alloc.d[off + i] IN
        \/ \E j \in at(i) : ev.r.d[off + j] = ev.alloc.nv
        \/ IF obs[i] = NONE THEN ev.alloc.m[off + i] = 1
           ELSE ev.alloc.m[off + i] = 0 /\ \E j \in at(i) : ev.r.d[off + j] = v
      towards(i, j) == LET s == ev.dir.s[off + i] c == ev.dir.c[off + i]
                           e == DE(p, i, j) m == DN(p, i, j)
                       IN /\ Abs(e * c - m * s) <= 2 * (Abs(e) + Abs(m)) /\ e * s + m * c > 0
      dir(i) == LET d == ev.dir.deg[off + i] IN
        IF obs[i] = NONE THEN ev.dir.m[off + i] = 1
        ELSE ev.dir.m[off + i] = 0 /\ IF t[i] THEN d = 0 ELSE d > 0 /\ d <= 5760 /\ \E j \in at(i) : towards(i, j)
  IN (IF exact THEN {} ELSE IF swept THEN {"nearest-skipped"} ELSE {"nearest"})
     \cup Clause("targets", \A i \in 1..n : t[i] = (obs[i] = 0))
     \cup Clause("distance-of-target", \A i \in 1..n : obs[i] = NONE \/ at(i) # {})
     \cup Clause("allocation", \A i \in 1..n : alloc(i))
     \cup Clause("direction", \A i \in 1..n : dir(i))
Judge(ev) ==
  IF ev.op = "error" THEN Clause("not-refused", ev.exc = ev.want)
  ELSE IF ev.exc # "" THEN {"raised"}
  ELSE Common(ev.prox, ev.fdt, -999999, ev) \cup Common(ev.dir, ev.fdt, -999999, ev)
       \cup Common(ev.alloc, ev.r.dt, DefaultNull(ev.r.dt), ev)
       \cup (IF Len(ev.prox.q) # Len(ev.r.d) THEN {"size"} ELSE UNION {BandJudge(ev, b) : b \in 0..(ev.r.nb - 1)})
Init == l = 1 /\ fails = <<>> /\ acts = [x \in {} |-> 0]
Next ==
  \/ /\ l <= Len(Trace)
     /\ LET ev == Trace[l]
            bad == Judge(ev)
        IN /\ fails' = IF bad = {} THEN fails ELSE Append(fails, [at |-> l, clauses |-> bad])
           /\ acts' = Count(acts, ev.op)
     /\ l' = l + 1
  \/ /\ l = Len(Trace) + 1
     /\ WriteVerdict(l - 1, fails, acts)
     /\ l' = l + 1
     /\ UNCHANGED <<fails, acts>>
Spec == Init /\ [][Next]_<<l, fails, acts>>
=============================================================================
