---------------------------- MODULE CreationTrace ----------------------------
(* Recorded wrappings of raw data and creations like templates.              *)
EXTENDS Creation, TraceBase
VARIABLES l, fails, acts
Same(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : b[i] = ANY \/ a[i] = b[i]
\* data_to_raster, data_to_raster_like, dataarray_to_raster
WrapJudge(ev) ==
  LET s == ev.src
      o == ev.out
      e == Wrapped(s, DefaultNull(s.dt))
      nbands == Len(s.d) \div (Len(s.xs) * Len(s.ys))
  IN Clause("dtype", o.dt = s.dt)
     \cup Clause("coordinates", ev.oxs = e.xs /\ ev.oys = e.ys)
     \cup Clause("crs", ev.ocrs = ev.crs)
     \cup Clause("shape", o.nb = nbands /\ o.h = Len(s.ys) /\ o.w = Len(s.xs))
     \cup Clause("null-value", o.nv = e.nv)
     \cup Clause("null-cells", o.m = e.m)
     \cup Clause("values", Same(o.d, e.d))
     \cup Clause("chunks", ev.want = <<>> \/ ev.och = ev.want)
     \cup Clause("band-chunks", \A i \in 1..Len(ev.obch) : ev.obch[i] = 1)
\* Raster(array), Raster(DataArray)
ArrayJudge(ev) ==
  LET s == ev.src
      o == ev.out
      null == IF s.nv # NONE THEN s.nv ELSE IF ArrayHasNull(s.dt, s.d, ev.lazy) THEN NAN ELSE NONE
      outnv == IF null = NAN THEN DefaultNull(s.dt) ELSE null
      m0 == [k \in 1..Len(s.d) |-> IF null # NONE /\ s.d[k] = null THEN 1 ELSE 0]
      d0 == [k \in 1..Len(s.d) |-> IF m0[k] = 1 THEN outnv ELSE s.d[k]]
      nbands == Len(s.d) \div (Len(s.xs) * Len(s.ys))
  IN Clause("dtype", o.dt = s.dt)
     \cup Clause("coordinates", ev.oxs = Xs(s) /\ ev.oys = Ys(s))
     \cup Clause("crs", ev.ocrs = ev.crs)
     \cup Clause("shape", o.nb = nbands /\ o.h = Len(s.ys) /\ o.w = Len(s.xs))
     \cup Clause("null-value", o.nv = outnv)
     \cup Clause("null-cells", o.m = Canon(s, m0))
     \cup Clause("values", o.d = Canon(s, d0))
     \cup Clause("band-chunks", \A i \in 1..Len(ev.obch) : ev.obch[i] = 1)
\* Raster(Dataset): a mask and data, burned
DatasetJudge(ev) ==
  LET s == ev.src
      o == ev.out
      nv == IF s.nv = NONE \/ s.nv = NAN THEN DefaultNull(s.dt) ELSE s.nv
      e == Wrapped([s EXCEPT !.nv = nv], nv)
  IN Clause("dtype", o.dt = s.dt)
     \cup Clause("coordinates", ev.oxs = e.xs /\ ev.oys = e.ys)
     \cup Clause("crs", ev.ocrs = ev.crs)
     \cup Clause("null-value", o.nv = nv)
     \cup Clause("null-cells", o.m = e.m)
     \cup Clause("values", o.d = e.d)
LikeJudge(ev) ==
  LET t == ev.t
      o == ev.out
      n == t.h * t.w
      masked == ev.copy = 1 /\ t.nv # NONE
      keep == ev.dt = "" \/ ev.dt = t.dt
      nv == IF ~masked THEN NONE ELSE IF ev.random = 0 /\ keep THEN t.nv ELSE DefaultNull(IF ev.dt = "" THEN ev.vdt ELSE ev.dt)
      dt == IF ev.dt = "" THEN ev.vdt ELSE ev.dt
      m == IF masked THEN LikeMask(t, ev.bands) ELSE [k \in 1..(ev.bands * n) |-> 0]
  IN Clause("shape", o.nb = ev.bands /\ o.h = t.h /\ o.w = t.w)
     \cup Clause("grid", o.g = t.g)
     \cup Clause("chunks", ev.want = <<>> \/ ev.och = ev.want)
     \cup Clause("band-chunks", \A i \in 1..Len(ev.obch) : ev.obch[i] = 1)
     \cup Clause("dtype", o.dt = dt \/ (ev.dt = "" /\ masked /\ o.dt = Promote(dt, t.dt)))
     \cup Clause("null-value", o.nv = nv)
     \cup Clause("null-cells", o.m = m)
     \cup Clause("values", Len(o.d) = ev.bands * n /\ \A k \in 1..Len(o.d) :
            IF Len(o.m) >= k /\ o.m[k] = 1 THEN o.d[k] = o.nv
            ELSE CASE ev.val = "const" -> o.d[k] = ConstIn(dt, ev.ve, ev.v2)
                   [] ev.val = "range" -> IsNum(ev.fl[k]) /\ ev.fl[k] >= ev.lo /\ ev.fl[k] <= ev.hi
                   [] OTHER -> TRUE)
     \cup Clause("not-independent", ev.distinct = 0 \/ ev.distinct = Cardinality({k \in 1..Len(o.d) : o.m[k] = 0}))
Judge(ev) ==
  IF ev.op = "error" THEN Clause("not-refused", ev.exc = ev.want)
  ELSE IF ev.exc # "" THEN {"raised"}
  ELSE CASE ev.op = "wrap" -> WrapJudge(ev)
         [] ev.op = "array" -> ArrayJudge(ev)
         [] ev.op = "dataset" -> DatasetJudge(ev)
         [] ev.op = "like" -> LikeJudge(ev)
Init == l = 1 /\ fails = <<>> /\ acts = [x \in {} |-> 0]
Next ==
  \/ /\ l <= Len(Trace)
     /\ LET ev == Trace[l]
            bad == Judge(ev)
        IN /\ fails' = IF bad = {} THEN fails ELSE Append(fails, [at |-> l, clauses |-> bad])
           /\ acts' = Count(acts, ev.op)
     /\ l' = l + 1
  \/ /\ l = Len(Trace) + 1
     /\ WriteVerdict(l - 1, fails, acts)
     /\ l' = l + 1
     /\ UNCHANGED <<fails, acts>>
Spec == Init /\ [][Next]_<<l, fails, acts>>
=============================================================================
