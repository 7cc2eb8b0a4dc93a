------------------------------ MODULE Proximity ------------------------------
(* Distance, value and direction of the nearest target.                      *)
(* A problem is [h, w, ry, rx, met, mx, t]: the cell size in quarters, the   *)
(* metric, the square of the maximum distance in square quarters (NONE: no   *)
(* maximum) and t[i] = TRUE at the targets.  Distances are squared.          *)
EXTENDS VTBase
Row(p, i) == (i - 1) \div p.w
Col(p, i) == (i - 1) % p.w
DN(p, i, j) == (Row(p, i) - Row(p, j)) * p.ry     \* north from i to j
DE(p, i, j) == (Col(p, j) - Col(p, i)) * p.rx     \* east from i to j
Dist2(p, i, j) ==
  LET a == Abs(DN(p, i, j)) b == Abs(DE(p, i, j)) IN
  CASE p.met = "euclidean" -> a * a + b * b
    [] p.met = "taxi" -> (a + b) * (a + b)
    [] p.met = "chebyshev" -> Max2(a, b) * Max2(a, b)
    \* great circle: a table of distances by rows and column difference
    [] OTHER -> p.tab[Row(p, i) + 1][Row(p, j) + 1][Abs(Col(p, i) - Col(p, j)) + 1]
Targets(p) == {i \in 1..(p.h * p.w) : p.t[i]}
Within(p, d) == p.mx = NONE \/ d <= p.mx
\* the nearest distance or NONE
Nearest(p, i) == LET D == {d \in {Dist2(p, i, j) : j \in Targets(p)} : Within(p, d)}
                 IN IF D = {} THEN NONE ELSE SetMin(D)

\* ---- the two-pass sweep of the implementation: every column hands on one
\* candidate target, so that the nearest one can be lost
State0(p) == [pan |-> [x \in 1..p.w |-> 0], line |-> [x \in 1..p.w |-> NONE]]
Cand(p, i, j) == IF j = 0 THEN NONE ELSE Dist2(p, i, j)
Limit(p) == IF p.mx = NONE THEN NONE ELSE 2 * p.mx
\* one cell of one scan: step 1 from left to right, -1 from right to left
ScanCell(p, y, x, step, s) ==
  LET i == y * p.w + x
      in(k) == k >= 1 /\ k <= p.w
      d0 == Cand(p, i, s.pan[x])
      keep == d0 # NONE /\ d0 < Limit(p)
      c0 == IF keep THEN s.pan[x] ELSE 0
      m0 == IF keep THEN d0 ELSE Limit(p)
      jp == IF in(x - step) THEN s.pan[x - step] ELSE 0
      d1 == Cand(p, i, jp)
      c1 == IF d1 # NONE /\ d1 < m0 THEN jp ELSE c0
      m1 == IF d1 # NONE /\ d1 < m0 THEN d1 ELSE m0
      jn == IF in(x + step) THEN s.pan[x + step] ELSE 0
      d2 == Cand(p, i, jn)
      c2 == IF d2 # NONE /\ d2 < m1 THEN jn ELSE c1
      m2 == IF d2 # NONE /\ d2 < m1 THEN d2 ELSE m1
      better == c2 # 0 /\ Within(p, m2) /\ (s.line[x] = NONE \/ m2 < s.line[x])
  IN IF p.t[i] THEN [pan |-> [s.pan EXCEPT ![x] = i], line |-> [s.line EXCEPT ![x] = 0]]
     ELSE [pan |-> [s.pan EXCEPT ![x] = c2], line |-> IF better THEN [s.line EXCEPT ![x] = m2] ELSE s.line]
RECURSIVE Scan(_, _, _, _, _)
Scan(p, y, x, step, s) == IF x < 1 \/ x > p.w THEN s ELSE Scan(p, y, x + step, step, TLCEval(ScanCell(p, y, x, step, s)))
LineDown(p, y, pan) == Scan(p, y, p.w, -1, Scan(p, y, 1, 1, [pan |-> pan, line |-> State0(p).line]))
LineUp(p, y, pan, line) == Scan(p, y, 1, 1, Scan(p, y, p.w, -1, [pan |-> pan, line |-> line]))
RECURSIVE Down(_, _, _, _)
Down(p, y, pan, acc) == IF y >= p.h THEN acc ELSE
  LET s == TLCEval(LineDown(p, y, pan)) IN Down(p, y + 1, s.pan, acc \o s.line)
RECURSIVE Up(_, _, _, _)
Up(p, y, pan, prox) == IF y < 0 THEN prox ELSE
  LET s == TLCEval(LineUp(p, y, pan, SubSeq(prox, y * p.w + 1, (y + 1) * p.w)))
  IN Up(p, y - 1, s.pan, TLCEval(SubSeq(prox, 1, y * p.w) \o s.line \o SubSeq(prox, (y + 1) * p.w + 1, Len(prox))))
Sweep(p) == Up(p, p.h - 1, State0(p).pan, Down(p, 0, State0(p).pan, <<>>))
=============================================================================
