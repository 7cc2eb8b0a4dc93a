----------------------------- MODULE LineStats -----------------------------
(* The weighted length of features near a cell.  The length of feature f     *)
(* within the circle of cell c is only known up to an interval               *)
(*   lo[f][c] .. hi[f][c]   (thousandths; the library uses a polygon inside  *)
(* the circle), so sums are intervals as well.                               *)
EXTENDS VTBase, Sequences, FiniteSets, TLC
RECURSIVE SumLo(_, _, _, _, _)
SumLo(lo, hi, w, c, f) == IF f > Len(w) THEN 0
  ELSE (IF w[f] >= 0 THEN w[f] * lo[f][c] ELSE w[f] * hi[f][c]) + SumLo(lo, hi, w, c, f + 1)
LoAt(lo, hi, w, c) == SumLo(lo, hi, w, c, 1)
HiAt(lo, hi, w, c) == 0 - SumLo(lo, hi, [f \in DOMAIN w |-> 0 - w[f]], c, 1)
RECURSIVE SumHi(_, _, _, _)
SumHi(hi, w, c, f) == IF f > Len(w) THEN 0 ELSE Abs(w[f]) * hi[f][c] + SumHi(hi, w, c, f + 1)
\* rounding of single precision sums
Slack(hi, w, c) == 3 + SumHi(hi, w, c, 1) \div 4000
InBounds(lo, hi, w, c, v) == v >= LoAt(lo, hi, w, c) - Slack(hi, w, c) /\ v <= HiAt(lo, hi, w, c) + Slack(hi, w, c)
Near(hi, w, c, a, b) == Abs(a - b) <= Slack(hi, w, c)
=============================================================================
