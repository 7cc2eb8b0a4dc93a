---------------------------- MODULE SurfaceTrace ----------------------------
(* out.v holds the observed value in fixed point, out.s and out.c the sine   *)
(* and cosine (times 4096) of an observed angle.                             *)
EXTENDS Surface, TraceBase
VARIABLES l, fails, acts
Near1(a, b, t) == b < 1000000000 /\ Abs(a - b) <= t
Frame(ev, dt, nv) ==
  LET r == ev.r IN
  Clause("shape", r.nb = ev.out.nb /\ r.h = ev.out.h /\ r.w = ev.out.w)
  \cup Clause("grid", r.g = ev.out.g)
  \cup Clause("dtype", ev.out.dt = dt)
  \cup Clause("null-value", ev.out.nv = nv)
  \cup Clause("null-fill", \A i \in 1..Len(ev.out.m) : ev.out.m[i] = 0 \/ ev.out.fill[i] = ev.out.nv)
Used(op) == IF op = "curvature" THEN Plus ELSE Nine
CellOk(ev, i) ==
  LET r == ev.r
      v == ev.out.v[i]
  IN CASE ev.op = "slope" -> Near1(Slope256(r, i, ev.rx, ev.ry), v, 2 + v \div 200)
       [] ev.op = "aspect" -> IF DX(r, i) = 0 /\ DY(r, i) = 0 THEN v = -16
                              ELSE v >= 0 /\ v < 5760 /\ Faces(r, i, ev.out.s[i], ev.out.c[i])
       [] ev.op = "curvature" -> Near1(Curv64(r, i, ev.rx, ev.ry), v, 1)
       [] ev.op \in {"northing", "easting"} ->
            (DX(r, i) = 0 /\ DY(r, i) = 0) \/ UnitPart(r, i, v, IF ev.op = "northing" THEN "north" ELSE "east")
       [] ev.op = "hillshade" -> LET h == Shade(r, i, ev.rx, ev.ry, ev.az, ev.alt) IN h >= 252 \/ Near1(h, v, 2)
       [] ev.op = "surface_area_3d" -> Near1(Area64(r, i, ev.rx), v, 2 + ev.rx)
Cells3(ev) ==
  LET r == ev.r
      border == {i \in Cells(r) : ~Interior(r, i)}
      inner == {i \in Cells(r) : Interior(r, i) /\ r.m[i] = 0}
      whole == {i \in inner : ~NullNear(r, i, Used(ev.op))}
  IN IF Len(ev.out.v) # N(r) THEN {"size"} ELSE
     Clause("border-null", \A i \in border : ev.out.m[i] = 1)
     \cup Clause("nulls-null", \A i \in Cells(r) : r.m[i] = 0 \/ ev.out.m[i] = 1)
     \cup Clause("interior-valid", \A i \in whole : ev.out.m[i] = 0 \/ (ev.op = "hillshade" /\ Shade(r, i, ev.rx, ev.ry, ev.az, ev.alt) >= 252))
     \cup Clause("formula", \A i \in whole : ev.out.m[i] = 1 \/ CellOk(ev, i))
     \cup Clause("no-number-next-to-null", ev.op = "hillshade" \/ \A i \in inner \ whole : ev.out.m[i] = 1 \/ ev.out.v[i] = NAN)
\* northing and easting of a raster of aspects given in multiples of 15 degrees
Asp(ev) ==
  LET r == ev.r IN
  Clause("null-cells", ev.out.m = r.m)
  \cup Clause("formula", \A i \in Cells(r) : r.m[i] = 1 \/
         Near1(IF ev.op = "northing" THEN Cos15(r.d[i] \div 15) ELSE Sin15(r.d[i] \div 15), ev.out.v[i], 8))
Tpi(ev) ==
  LET r == ev.r
      offs == Offsets(Window(ev.win))
  IN Clause("null-cells", \A i \in Cells(r) : (r.m[i] = 1 => ev.out.m[i] = 1)
                 /\ (r.m[i] = 0 /\ Under(r, i, offs) # <<>> => ev.out.m[i] = 0))
     \cup Clause("null-value", (ev.out.nv # NONE) = Masked(r))
     \cup Clause("formula", \A i \in Cells(r) : r.m[i] = 1 \/ Under(r, i, offs) = <<>>
                              \/ ev.out.v[i] \in TpiVals(r.d[i], Under(r, i, offs)))
Judge(ev) ==
  IF ev.exc # "" THEN Clause("raised", ev.op = "tpi" /\ LET w == Window(ev.win) IN w.h \div 2 > ev.r.h \/ w.w \div 2 > ev.r.w)
  ELSE CASE ev.op = "tpi" -> Clause("dtype", ev.out.dt = "i4") \cup Clause("grid", ev.r.g = ev.out.g) \cup Tpi(ev)
         [] ev.op \in {"northing", "easting"} /\ ev.asp = 1 -> Clause("grid", ev.r.g = ev.out.g) \cup Asp(ev)
         [] ev.op = "hillshade" -> Frame(ev, "u1", 255) \cup Cells3(ev)
         [] OTHER -> Frame(ev, "f8", -999999) \cup Cells3(ev)
Init == l = 1 /\ fails = <<>> /\ acts = [x \in {} |-> 0]
Next ==
  \/ /\ l <= Len(Trace)
     /\ LET ev == Trace[l]
            bad == Judge(ev)
        IN /\ fails' = IF bad = {} THEN fails ELSE Append(fails, [at |-> l, clauses |-> bad])
           /\ acts' = Count(acts, ev.op)
     /\ l' = l + 1
  \/ /\ l = Len(Trace) + 1
     /\ WriteVerdict(l - 1, fails, acts)
     /\ l' = l + 1
     /\ UNCHANGED <<fails, acts>>
Spec == Init /\ [][Next]_<<l, fails, acts>>
=============================================================================
