------------------------------- MODULE Mosaic -------------------------------
(* Stacking and mosaicking rasters on an aligned lattice of cells.           *)
(* A placed raster is a raster record with the lattice row r0 and column c0  *)
(* of its first cell.  A value equal to the null value of the result counts  *)
(* as null (it cannot be told apart once painted).                           *)
EXTENDS RasterSem

Covers(p, R, C) == R >= p.r0 /\ R < p.r0 + p.h /\ C >= p.c0 /\ C < p.c0 + p.w
IdxOf(p, b, R, C) == (b - 1) * Plane(p) + (R - p.r0) * p.w + (C - p.c0) + 1

Extent(ps) ==
  [r0 |-> SetMin({ps[k].r0 : k \in DOMAIN ps}), c0 |-> SetMin({ps[k].c0 : k \in DOMAIN ps}),
   r1 |-> SetMax({ps[k].r0 + ps[k].h : k \in DOMAIN ps}), c1 |-> SetMax({ps[k].c0 + ps[k].w : k \in DOMAIN ps})]
Common(ps) ==
  [r0 |-> SetMax({ps[k].r0 : k \in DOMAIN ps}), c0 |-> SetMax({ps[k].c0 : k \in DOMAIN ps}),
   r1 |-> SetMin({ps[k].r0 + ps[k].h : k \in DOMAIN ps}), c1 |-> SetMin({ps[k].c0 + ps[k].w : k \in DOMAIN ps})]

CommonType(ps) == PromoteAll({ps[k].dt : k \in DOMAIN ps})
\* null value of a result: the one asked for, else the first there is, else the default
OutNull(ps, dt, asked) ==
  IF asked # NONE THEN asked
  ELSE LET K == {k \in DOMAIN ps : ps[k].nv # NONE} IN
       IF K = {} THEN DefaultNull(dt) ELSE ps[SetMin(K)].nv

(**** painting one cell: src is the sequence of values of the inputs there ****)
Valid(src, nv) == {k \in DOMAIN src : src[k] # nv}
Paint(src, method, dt, nv) ==
  LET K == Valid(src, nv) IN
  IF K = {} THEN nv
  ELSE CASE method = "first" -> src[SetMin(K)]
         [] method = "last" -> src[SetMax(K)]
         [] \E k \in K : src[k] = ANY -> ANY
         [] method = "min" -> SetMin({src[k] : k \in K})
         [] method = "max" -> SetMax({src[k] : k \in K})
         [] method = "sum" -> Wrap(SumSeq([i \in 1..Len(src) |-> IF i \in K THEN src[i] ELSE 0]), dt)

\* the value an input gives to a lattice cell, in the result's type; nv where it has none
At(p, b, R, C, dt, nv) ==
  IF b > p.nb \/ ~Covers(p, R, C) THEN nv
  ELSE LET i == IdxOf(p, b, R, C) IN IF p.m[i] = 1 THEN nv
       ELSE IF p.d[i] \in {p.nv, DefaultNull(p.dt)} THEN ANY   \* cannot be told from null
       ELSE CastVal(p.d[i], p.dt, dt)

MosaicOf(ps, method, ext, dt, nv) ==
  LET h == ext.r1 - ext.r0
      w == ext.c1 - ext.c0
      nb == SetMax({ps[k].nb : k \in DOMAIN ps})
      R(i) == ext.r0 + (((i - 1) % (h * w)) \div w)
      C(i) == ext.c0 + ((i - 1) % w)
      B(i) == ((i - 1) \div (h * w)) + 1
      d == [i \in 1..(nb * h * w) |-> Paint([k \in 1..Len(ps) |-> At(ps[k], B(i), R(i), C(i), dt, nv)], method, dt, nv)]
  IN [dt |-> dt, nv |-> nv, nb |-> nb, h |-> h, w |-> w, d |-> d, g |-> <<>>,
      m |-> [i \in 1..(nb * h * w) |-> IF d[i] = ANY THEN ANY ELSE B2I(d[i] = nv)]]

\* band j of a stack is band b of input k
RECURSIVE BandList(_, _)
BandList(ps, k) == IF k > Len(ps) THEN <<>> ELSE [b \in 1..ps[k].nb |-> <<k, b>>] \o BandList(ps, k + 1)
StackOf(ps, ext, dt, nv) ==
  LET h == ext.r1 - ext.r0
      w == ext.c1 - ext.c0
      bl == BandList(ps, 1)
      nb == Len(bl)
      B(i) == bl[((i - 1) \div (h * w)) + 1]
      R(i) == ext.r0 + (((i - 1) % (h * w)) \div w)
      C(i) == ext.c0 + ((i - 1) % w)
      P(i) == ps[B(i)[1]]
      null(i) == ~Covers(P(i), R(i), C(i)) \/ P(i).m[IdxOf(P(i), B(i)[2], R(i), C(i))] = 1
      v(i) == CastVal(P(i).d[IdxOf(P(i), B(i)[2], R(i), C(i))], P(i).dt, dt)
      n == nb * h * w
  IN [dt |-> dt, nv |-> nv, nb |-> nb, h |-> h, w |-> w, g |-> <<>>,
      d |-> [i \in 1..n |-> IF null(i) THEN nv ELSE v(i)],
      \* a valid cell equal to the null value (of the result or of an intermediate) is not determined
      m |-> [i \in 1..n |-> IF null(i) THEN 1
                            ELSE IF v(i) = nv \/ P(i).d[IdxOf(P(i), B(i)[2], R(i), C(i))] \in {P(i).nv, DefaultNull(P(i).dt)}
                            THEN ANY ELSE 0]]

(************* painting as a process, for the grouping independence *************)
Later(a, b, nv) == IF b # nv THEN b ELSE a
Combine(a, b, method, dt, nv) ==
  IF a = nv THEN b ELSE IF b = nv THEN a
  ELSE CASE method = "first" -> a [] method = "last" -> b
         [] method = "min" -> Min2(a, b) [] method = "max" -> Max2(a, b) [] method = "sum" -> Wrap(a + b, dt)
=============================================================================
