----------------------------- MODULE MosaicTrace -----------------------------
EXTENDS Mosaic, TraceBase
VARIABLES l, fails, acts
Place(exp, ext, out) ==
  Diff(exp, out) \cup Clause("placed", out.r0 = ext.r0 /\ out.c0 = ext.c0 /\ out.crs = 1)
Ext(ev) == IF ev.dst # <<>> THEN [r0 |-> ev.dst[1], c0 |-> ev.dst[2], r1 |-> ev.dst[1] + ev.dst[3], c1 |-> ev.dst[2] + ev.dst[4]]
           ELSE IF ev.join = "outer" THEN Extent(ev.ins) ELSE Common(ev.ins)
OutType(ev) == IF ev.dt # "" THEN ev.dt ELSE CommonType(ev.ins)
Judge(ev) ==
  IF ev.join = "inner" /\ ev.dst = <<>> /\ (Ext(ev).r1 <= Ext(ev).r0 \/ Ext(ev).c1 <= Ext(ev).c0)
  THEN Clause("error-expected", ev.exc # "")
  ELSE IF ev.exc # "" THEN {"raised"}
  ELSE CASE ev.op = "mosaic" ->
              LET dt == OutType(ev) nv == OutNull(ev.ins, dt, ev.nv) IN
              Place(MosaicOf(ev.ins, ev.method, Ext(ev), dt, nv), Ext(ev), ev.out)
         [] ev.op = "stack" ->
              LET dt == OutType(ev) nv == OutNull(ev.ins, dt, ev.nv) IN
              LET exp == StackOf(ev.ins, Ext(ev), dt, nv)
                  \* a lone raster without null value may be passed on as it is
                  lone == Len(ev.ins) = 1 /\ ev.ins[1].nv = NONE /\ ev.dst = <<>>
              IN Place(IF lone THEN [exp EXCEPT !.nv = ANY] ELSE exp, Ext(ev), ev.out)
         [] ev.op = "concat" ->
              LET dt == CommonType(ev.ins)
                  mk == \E k \in DOMAIN ev.ins : ev.ins[k].nv # NONE
                  exp == StackOf(ev.ins, Ext(ev), dt, IF mk THEN DefaultNull(dt) ELSE NONE)
                  \* concatenation keeps the masks as they are
                  ms == [i \in DOMAIN exp.m |-> IF exp.m[i] = ANY THEN 0 ELSE exp.m[i]]
              IN Place(IF Len(ev.ins) = 1 THEN ev.ins[1] ELSE [exp EXCEPT !.m = ms], Ext(ev), ev.out)
         [] ev.op = "reproject" ->
              LET p == ev.ins[1]
                  nv == IF p.nv # NONE THEN p.nv ELSE DefaultNull(p.dt)
              IN Place(StackOf(ev.ins, Ext(ev), p.dt, nv), Ext(ev), ev.out)
Init == l = 1 /\ fails = <<>> /\ acts = [x \in {} |-> 0]
Next ==
  \/ /\ l <= Len(Trace)
     /\ LET ev == Trace[l]
            bad == Judge(ev)
        IN /\ fails' = IF bad = {} THEN fails ELSE Append(fails, [at |-> l, clauses |-> bad])
           /\ acts' = Count(acts, ev.op)
     /\ l' = l + 1
  \/ /\ l = Len(Trace) + 1
     /\ WriteVerdict(l - 1, fails, acts)
     /\ l' = l + 1
     /\ UNCHANGED <<fails, acts>>
Spec == Init /\ [][Next]_<<l, fails, acts>>
=============================================================================
