------------------------------ MODULE Creation ------------------------------
(* Rasters wrapped from raw arrays and rasters created like a template.      *)
(*                                                                           *)
(* A raw source is a block of cells d[b][i][j] whose rows and columns carry  *)
(* coordinates ys and xs in either direction.  Wrapping turns it into the    *)
(* canonical raster: columns from west to east, rows from north to south.    *)
EXTENDS VTBase
Falling(s) == Len(s) > 1 /\ s[1] > s[2]
Rising(s) == Len(s) > 1 /\ s[1] < s[2]
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
Xs(src) == IF Falling(src.xs) THEN Rev(src.xs) ELSE src.xs
Ys(src) == IF Rising(src.ys) THEN Rev(src.ys) ELSE src.ys
\* index in the source of cell k of the canonical raster (row-major, bands first)
From(src, k) ==
  LET h == Len(src.ys)
      w == Len(src.xs)
      b == (k - 1) \div (h * w)
      i == ((k - 1) \div w) % h
      j == (k - 1) % w
      si == IF Rising(src.ys) THEN h - 1 - i ELSE i
      sj == IF Falling(src.xs) THEN w - 1 - j ELSE j
  IN b * h * w + si * w + sj + 1
Canon(src, cells) == [k \in 1..Len(cells) |-> cells[From(src, k)]]

\* The data, mask and null value of the wrapped raster.  has = 1: a mask is
\* given, default nv when none is; burn = 1: null cells get the null value.
WrapNull(src, nv0) == IF src.has = 1 /\ src.nv = NONE THEN nv0 ELSE src.nv
WrapMask(src) ==
  Canon(src, IF src.has = 1 THEN src.m
             ELSE [k \in 1..Len(src.d) |-> IF src.nv # NONE /\ src.d[k] = src.nv THEN 1 ELSE 0])
WrapData(src, nv0) ==
  Canon(src, IF src.has = 1 /\ src.burn = 1
             THEN [k \in 1..Len(src.d) |-> IF src.m[k] = 1 THEN WrapNull(src, nv0) ELSE src.d[k]]
             ELSE src.d)
Wrapped(src, nv0) ==
  [xs |-> Xs(src), ys |-> Ys(src), nv |-> WrapNull(src, nv0), d |-> WrapData(src, nv0), m |-> WrapMask(src)]

\* Arrays without declared null value: NaN cells of floating data are null
\* and hold the default null value of the type.
ArrayHasNull(dt, d, lazy) == IsFloat(dt) /\ (lazy = 1 \/ \E k \in 1..Len(d) : d[k] = NAN)

\* Creation like a template.
LikeMask(t, bands) ==
  IF bands = t.nb THEN t.m
  ELSE [k \in 1..(bands * t.h * t.w) |-> t.m[((k - 1) % (t.h * t.w)) + 1]]
\* a constant, given by its code and its double, in a data type
Half(v2) == IF v2 >= 0 THEN v2 \div 2 ELSE -((-v2) \div 2)
ConstIn(dt, ve, v2) ==
  IF IsFloat(dt) THEN ve ELSE IF dt = "b1" THEN (IF v2 # 0 THEN 1 ELSE 0) ELSE Half(v2)
=============================================================================
