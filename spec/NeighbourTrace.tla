--------------------------- MODULE NeighbourTrace ---------------------------
(* Events carry the input raster r and the observed raster out, whose values *)
(* out.d are scaled by ev.s.                                                 *)
EXTENDS Neighbour, TraceBase
VARIABLES l, fails, acts
Shape(exp, out) == Clause("shape", exp.nb = out.nb /\ exp.h = out.h /\ exp.w = out.w)
Cellwise(stat, exp, out) ==
  IF Len(exp.v) # Len(out.d) THEN {"size"}
  ELSE Clause("null-cells", \A i \in 1..Len(exp.m) : Eqv(exp.m[i], out.m[i]))
       \cup Clause("valid-cells", \A i \in 1..Len(exp.v) : exp.m[i] # 0 \/ Near(stat, exp.v[i], out.d[i]))
\* every raster made has consistent nulls (the fill is compared unscaled)
Fill(out) == Clause("null-fill", out.nv = NONE \/ \A i \in 1..Len(out.m) : out.m[i] = 0 \/ out.fill[i] = out.nv)
             \cup Clause("no-null-value", out.nv # NONE \/ \A i \in 1..Len(out.m) : out.m[i] = 0)
\* data types that are documented to be kept
KeepsType == {"min", "max", "mode"}
ExpectFocal(ev) ==
  LET r == ev.r
      win == Window(ev.win)
      exp == Focal(r, ev.stat, win, ev.ign = 1, ev.s)
  IN Clause("shape", r.nb = ev.out.nb /\ r.h = ev.out.h /\ r.w = ev.out.w)
     \cup Clause("grid", r.g = ev.out.g)
     \cup Clause("null-value", ev.out.nv = IF Masked(r) THEN NAN ELSE NONE)
     \cup Clause("dtype", Masked(r) \/ ev.stat \notin KeepsType \/ ~IsIntDt(r.dt) \/ ev.out.dt = r.dt)
     \cup Fill(ev.out) \cup Cellwise(ev.stat, exp, ev.out)
ExpectWindow(ev) ==
  LET win == Window(ev.win) IN Clause("window", ev.out = win)
ExpectCorr(ev) ==
  LET r == ev.r
      win == IF ev.op = "convolve" THEN Turned(ev.win) ELSE ev.win
      v == Correlate(r, win, ev.mode, ev.cval)
      dt == IF IsIntDt(r.dt) /\ ev.kf = 1 THEN "f8" ELSE r.dt
      nv == IF Masked(r) THEN r.nv ELSE NONE
  IN Clause("shape", r.nb = ev.out.nb /\ r.h = ev.out.h /\ r.w = ev.out.w)
     \cup Clause("grid", r.g = ev.out.g)
     \cup Clause("dtype", dt = ev.out.dt)
     \cup Clause("null-value", ev.nvk = 0 \/ nv = ev.out.nv)
     \cup Fill(ev.out)
     \cup (IF Len(ev.out.d) # N(r) THEN {"size"} ELSE
          Clause("null-cells", r.m = ev.out.m)
          \cup Clause("valid-cells", \A i \in Cells(r) : r.m[i] = 1
                      \/ (IsIntDt(dt) /\ ~Fits(v[i] \div ev.kd, dt)) \/ Abs(v[i] * (ev.s \div ev.kd) - ev.out.d[i]) <= 1))
ExpectMorph(ev) ==
  LET exp == Morph(ev.r, ev.op, ev.fh, ev.fw) IN Diff(exp, ev.out)
ExpectAgg(ev) ==
  LET r == ev.r
      exp == Aggregate(r, ev.ky, ev.kx, ev.stat, ev.s)
  IN Shape(exp, ev.out) \cup Fill(ev.out)
     \cup Clause("null-value", (ev.out.nv # NONE) = Masked(r))
     \cup Clause("dtype", ev.stat \notin KeepsType \/ Masked(r) \/ ~IsIntDt(r.dt) \/ r.dt = ev.out.dt)
     \cup Clause("crs", ev.crs = 1)
     \cup Cellwise(ev.stat, exp, ev.out)
     \cup Clause("coordinates",
          Len(ev.xo) = exp.w /\ Len(ev.yo) = exp.h
          /\ (\A j \in 1..exp.w : 2 * ev.xo[j] = ev.xs[(j - 1) * ev.kx + 1] + ev.xs[j * ev.kx])
          /\ (\A j \in 1..exp.h : 2 * ev.yo[j] = ev.ys[(j - 1) * ev.ky + 1] + ev.ys[j * ev.ky]))
ExpectLocal(ev) ==
  LET r == ev.r
      exp == Local(r, ev.stat, ev.s)
  IN Shape(exp, ev.out) \cup Fill(ev.out)
     \cup Clause("grid", r.g = ev.out.g)
     \cup Clause("null-value", (ev.out.nv # NONE) = Masked(r))
     \cup Cellwise(ev.stat, exp, ev.out)
ExpectReduce(ev) ==
  LET exp == Reduce(ev.r, ev.stat, ev.s) IN Clause("value", exp = ANY \/ Near(ev.stat, exp, ev.v))
\* windows reaching farther than the raster is wide are refused
TooLarge(ev) ==
  CASE ev.op \in {"correlate", "convolve"} /\ ev.r.dt = "f2" /\ ~Masked(ev.r) -> TRUE  \* not supported by scipy
    [] ev.op = "focal" -> LET w == Window(ev.win) IN (w.h + 2) \div 2 > ev.r.h \/ (w.w + 2) \div 2 > ev.r.w
    [] ev.op \in {"correlate", "convolve"} -> (ev.win.h + 2) \div 2 > ev.r.h \/ (ev.win.w + 2) \div 2 > ev.r.w
    [] ev.op \in {"dilate", "erode"} -> ev.fh \div 2 > ev.r.h \/ ev.fw \div 2 > ev.r.w
    [] OTHER -> FALSE
Judge(ev) ==
  IF ev.exc # "" THEN Clause("raised", TooLarge(ev))
  ELSE CASE ev.op = "focal" -> ExpectFocal(ev)
         [] ev.op = "window" -> ExpectWindow(ev)
         [] ev.op \in {"correlate", "convolve"} -> ExpectCorr(ev)
         [] ev.op \in {"dilate", "erode"} -> ExpectMorph(ev)
         [] ev.op = "aggregate" -> ExpectAgg(ev)
         [] ev.op = "local" -> ExpectLocal(ev)
         [] ev.op = "reduce" -> ExpectReduce(ev)
Init == l = 1 /\ fails = <<>> /\ acts = [x \in {} |-> 0]
Next ==
  \/ /\ l <= Len(Trace)
     /\ LET ev == Trace[l]
            bad == Judge(ev)
        IN /\ fails' = IF bad = {} THEN fails ELSE Append(fails, [at |-> l, clauses |-> bad])
           /\ acts' = Count(acts, ev.op \o ev.stat)
     /\ l' = l + 1
  \/ /\ l = Len(Trace) + 1
     /\ WriteVerdict(l - 1, fails, acts)
     /\ l' = l + 1
     /\ UNCHANGED <<fails, acts>>
Spec == Init /\ [][Next]_<<l, fails, acts>>
=============================================================================
