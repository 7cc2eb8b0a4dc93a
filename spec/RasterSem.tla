----------------------------- MODULE RasterSem -----------------------------
(* The abstract raster and the cell-wise semantics of the operations on it.  *)
(*                                                                           *)
(* A raster is a record                                                      *)
(*   dt  data type            nv  null value or NONE                         *)
(*   nb, h, w  bands, rows, columns                                          *)
(*   d   cell values, band-major then row-major       m  1 where null, or 0  *)
(*   g   grid, opaque here (a sequence of integers)                          *)
(* Every operator below gives the raster the documented operation yields.    *)
EXTENDS VTBase

N(r) == r.nb * r.h * r.w
Cells(r) == 1 .. N(r)
Masked(r) == r.nv # NONE
Plane(r) == r.h * r.w
BandOf(r, i) == ((i - 1) \div Plane(r)) + 1
InPlane(r, i) == ((i - 1) % Plane(r)) + 1

WellFormed(r) ==
  /\ r.dt \in DTypes
  /\ Len(r.d) = N(r) /\ Len(r.m) = N(r)
  /\ \A i \in Cells(r) : r.m[i] \in {0, 1}
\* the consistency every raster keeps
NullConsistent(r) ==
  /\ (~Masked(r) => \A i \in Cells(r) : r.m[i] = 0)
  /\ (Masked(r) => /\ \A i \in Cells(r) : r.m[i] = 1 => r.d[i] = r.nv
                   /\ (IsNum(r.nv) => Fits(r.nv, r.dt))
                   /\ (r.nv = NAN => IsFloat(r.dt)))

Zeros(n) == [i \in 1..n |-> 0]
With(r, dt, nv, d, m) == [r EXCEPT !.dt = dt, !.nv = nv, !.d = d, !.m = m]

(***************************** scalar functions *****************************)
FloorDiv(a, b) == IF b > 0 THEN a \div b ELSE (-a) \div (-b)
Mod(a, b) == a - b * FloorDiv(a, b)
Mul(x, y) == IF Abs(x) > 30000 \/ Abs(y) > 30000 THEN ANY ELSE x * y
RECURSIVE Pow2(_)
Pow2(n) == IF n = 0 THEN 1 ELSE 2 * Pow2(n - 1)

\* two's complement bit operations on small integers
RECURSIVE BitN(_, _, _, _)
BitN(op, x, y, n) ==
  IF n = 0 THEN 0
  ELSE LET a == x % 2
           b == y % 2
           c == CASE op = "and" -> a * b
                  [] op = "or"  -> Max2(a, b)
                  [] op = "xor" -> (a + b) % 2
       IN  c + 2 * BitN(op, x \div 2, y \div 2, n - 1)
BitOp(op, x, y) ==   \* 17-bit two's complement is enough for |x| < 2^16
  IF Abs(x) > 65535 \/ Abs(y) > 65535 THEN ANY
  ELSE LET v == BitN(op, x % 131072, y % 131072, 17)
       IN IF v >= 65536 THEN v - 131072 ELSE v

Comparisons == {"eq", "ne", "lt", "le", "gt", "ge"}
Logicals == {"land", "lor", "lxor"}
Bitwise == {"and", "or", "xor"}
Arith == {"add", "sub", "mul", "floordiv", "mod", "minimum", "maximum"}
Shifts == {"lshift", "rshift"}

\* data type of a binary operation's result
BinType(op, a, b) ==
  LET p == Promote(a, b) IN
  CASE op \in Comparisons \cup Logicals -> "b1"
    [] op = "truediv" -> IF IsFloat(p) THEN p ELSE "f8"
    [] op \in {"floordiv", "mod"} \cup Shifts -> IF p = "b1" THEN "i1" ELSE p
    [] OTHER -> p
\* operand types for which the operation is an error
BinError(op, a, b) ==
  \/ op \in Bitwise \cup Shifts /\ (IsFloat(a) \/ IsFloat(b) \/ IsFloat(Promote(a, b)))
  \/ op = "sub" /\ a = "b1" /\ b = "b1"

Cmp(op, x, y) ==
  IF x = NAN \/ y = NAN THEN op = "ne"
  ELSE CASE op = "eq" -> x = y [] op = "ne" -> x # y
         [] op = "lt" -> x < y [] op = "le" -> x <= y
         [] op = "gt" -> x > y [] op = "ge" -> x >= y
Truthy(x) == x # 0

\* value of a binary operation for result type dt
BinVal(op, dt, x, y) ==
  CASE op \in Comparisons ->
         IF (IsNum(x) \/ x = NAN) /\ (IsNum(y) \/ y = NAN) THEN B2I(Cmp(op, x, y))
         ELSE IF x = y THEN B2I(op \in {"eq", "le", "ge"}) ELSE ANY
    [] op = "land" -> B2I(Truthy(x) /\ Truthy(y))
    [] op = "lor"  -> B2I(Truthy(x) \/ Truthy(y))
    [] op = "lxor" -> B2I(Truthy(x) # Truthy(y))
    [] (x = NAN \/ y = NAN) /\ op \in Arith -> NAN
    [] ~IsNum(x) \/ ~IsNum(y) -> ANY
    [] op = "add" -> IF dt = "b1" THEN B2I(x + y > 0) ELSE Wrap(x + y, dt)
    [] op = "sub" -> Wrap(x - y, dt)
    [] op = "mul" -> Wrap(Mul(x, y), dt)
    [] op = "floordiv" -> IF y = 0 THEN (IF IsFloat(dt) THEN ANY ELSE 0)
                          ELSE IF IsFloat(dt) /\ x = 0 THEN 0 ELSE Wrap(FloorDiv(x, y), dt)
    [] op = "mod" -> IF y = 0 THEN (IF IsFloat(dt) THEN ANY ELSE 0) ELSE Wrap(Mod(x, y), dt)
    [] op = "minimum" -> Min2(x, y)
    [] op = "maximum" -> Max2(x, y)
    [] op \in Bitwise -> Wrap(BitOp(op, x, y), dt)
    [] op = "lshift" -> IF y \in 0..6 /\ Abs(x) <= 30000 THEN Wrap(x * Pow2(y), dt) ELSE ANY
    [] op = "rshift" -> IF y \in 0..14 THEN Wrap(x \div Pow2(y), dt) ELSE ANY
    [] OTHER -> ANY

UnType(op, dt) ==
  CASE op \in {"lnot", "isnan", "isfinite"} -> "b1"
    [] op = "invert" -> dt
    [] op \in {"neg", "pos", "abs"} -> dt
    [] op \in {"sqrt"} -> FloatOf(dt)
    [] op \in {"square", "sign"} -> IF dt = "b1" THEN "i1" ELSE dt
UnError(op, dt) == \/ op = "invert" /\ IsFloat(dt)
                   \/ op \in {"neg", "pos", "sign"} /\ dt = "b1"
UnVal(op, dt, x) ==
  CASE op = "lnot" -> B2I(~Truthy(x))
    [] op = "isnan" -> B2I(x = NAN)
    [] op = "isfinite" -> B2I(x \notin {NAN, PINF, NINF})
    [] x = NAN -> NAN
    [] ~IsNum(x) -> ANY
    [] op = "invert" -> IF dt = "b1" THEN 1 - x ELSE Wrap(-x - 1, dt)
    [] op = "neg" -> Wrap(-x, dt)
    [] op = "pos" -> x
    [] op = "abs" -> IF dt = "b1" THEN x ELSE Wrap(Abs(x), dt)
    [] op = "square" -> Wrap(Mul(x, x), dt)
    [] op = "sign" -> IF x > 0 THEN 1 ELSE IF x < 0 THEN -1 ELSE 0
    [] op = "sqrt" -> ANY

(******************************* raster operators ****************************)
(* An operand is [k |-> "r", r |-> raster], [k |-> "s", dt, v] (a scalar),   *)
(* [k |-> "a", dt, d] (an array spread to the raster's shape) or             *)
(* [k |-> "b", dt, d] (one value per band).                                  *)
OpDt(o) == IF o.k = "r" THEN o.r.dt ELSE o.dt
OpVal(o, ref, i) == CASE o.k = "r" -> o.r.d[i] [] o.k = "s" -> o.v
                      [] o.k = "a" -> o.d[i] [] o.k = "b" -> o.d[BandOf(ref, i)]
OpMasked(o) == o.k = "r" /\ Masked(o.r)
OpNull(o, i) == o.k = "r" /\ o.r.m[i] = 1

\* the lifting of a cell function to rasters: the heart of null propagation
Lift2(ref, o1, o2, dt, f(_, _)) ==
  LET mk == OpMasked(o1) \/ OpMasked(o2)
      nv == IF mk THEN DefaultNull(dt) ELSE NONE
      m == [i \in Cells(ref) |-> B2I(OpNull(o1, i) \/ OpNull(o2, i))]
      d == [i \in Cells(ref) |-> IF m[i] = 1 THEN nv ELSE f(OpVal(o1, ref, i), OpVal(o2, ref, i))]
  IN  With(ref, dt, nv, d, m)
Binary(op, ref, o1, o2) ==
  LET dt == BinType(op, OpDt(o1), OpDt(o2))
      f(x, y) == BinVal(op, dt, x, y)
  IN  Lift2(ref, o1, o2, dt, f)
Unary(op, r) ==
  LET dt == UnType(op, r.dt)
      nv == IF Masked(r) THEN DefaultNull(dt) ELSE NONE
  IN  With(r, dt, nv, [i \in Cells(r) |-> IF r.m[i] = 1 THEN nv ELSE UnVal(op, dt, r.d[i])], r.m)
\* an operation whose cell function is given by a table (numpy on the raw data)
Tabled(ref, ops, dt, tab) ==
  LET mk == \E k \in 1..Len(ops) : OpMasked(ops[k])
      nv == IF mk THEN DefaultNull(dt) ELSE NONE
      m == [i \in Cells(ref) |-> B2I(\E k \in 1..Len(ops) : OpNull(ops[k], i))]
  IN  With(ref, dt, nv, [i \in Cells(ref) |-> IF m[i] = 1 THEN nv ELSE tab[i]], m)

(***************************** null management *******************************)
Known(v) == IsNum(v) \/ v \in {NAN, PINF, NINF, NV_U4, NV_U8, NV_I4, NV_I8}
\* position of a value in the order of the numbers
Key(v) == CASE v = NINF -> -2000000009 [] v = NV_I8 -> -2000000002 [] v = NV_I4 -> -2000000001
            [] v = NV_U4 -> 2000000001 [] v = NV_U8 -> 2000000002 [] v = PINF -> 2000000009
            [] OTHER -> v
NanType(dt) == CASE dt \in {"u1","i1"} -> "f2" [] dt \in {"u2","i2"} -> "f4"
                 [] dt \in {"u4","i4","u8","i8"} -> "f8" [] OTHER -> dt
\* conversion of one value between types
CastVal(v, from, to) ==
  IF to = "b1" THEN B2I(v # 0)
  ELSE IF v \in {NAN, PINF, NINF} THEN (IF IsFloat(to) THEN v ELSE ANY)
  ELSE IF ~IsNum(v) THEN (IF from = to \/ (CanCast(from, to) /\ Known(v)) THEN v ELSE ANY)
  ELSE Wrap(v, to)

\* data type after setting null value v (kind "int" or "float" of the argument)
NullType(dt, v, kind) ==
  IF v = NAN THEN NanType(dt)
  ELSE IF IsIntDt(dt) /\ kind = "int" THEN (IF Fits(v, dt) THEN dt ELSE Promote(MinInt(v), dt))
  ELSE IF IsFloat(dt) \/ kind = "float" THEN Promote(MinFloat(v), dt)
  ELSE Promote(MinInt(v), dt)

SetNullValue(r, v, kind) ==
  IF v = NONE THEN With(r, r.dt, NONE, r.d, Zeros(N(r)))
  ELSE LET dt == NullType(r.dt, v, kind)
           c(i) == CastVal(r.d[i], r.dt, dt)
           m == [i \in Cells(r) |-> B2I(r.m[i] = 1 \/ c(i) = v)]
       IN With(r, dt, v, [i \in Cells(r) |-> IF m[i] = 1 THEN v ELSE c(i)], m)

\* nulling by a mask raster with one band or as many bands
SetNull(r, q) ==
  LET qi(i) == IF q.nb = 1 THEN InPlane(r, i) ELSE i
      m == [i \in Cells(r) |-> B2I(r.m[i] = 1 \/ (q.d[qi(i)] # 0 /\ q.m[qi(i)] = 0))]
      nv == IF Masked(r) THEN r.nv ELSE DefaultNull(r.dt)
  IN With(r, r.dt, nv, [i \in Cells(r) |-> IF m[i] = 1 THEN nv ELSE r.d[i]], m)

ToNullMask(r) == With(r, "b1", NONE, r.m, Zeros(N(r)))

\* the null value after a cast
CastNull(nv, from, to) ==
  IF nv = NONE THEN NONE
  ELSE IF nv = NAN THEN DefaultNull(to)
  ELSE IF CanCast(from, to) THEN nv
  ELSE IF CanCast(MinInt(nv), to) \/ (to = "b1" /\ nv \in {0, 1}) THEN nv
  ELSE DefaultNull(to)
AsType(r, dt) ==
  IF dt = r.dt THEN r
  ELSE LET nv == CastNull(r.nv, r.dt, dt)
       IN With(r, dt, nv, [i \in Cells(r) |-> IF r.m[i] = 1 THEN nv ELSE CastVal(r.d[i], r.dt, dt)], r.m)
\* a cast that also asks for a null value fitting the type (masked rasters)
AsTypeNull(r, dt, v) ==
  IF ~Masked(r) THEN AsType(r, dt)
  ELSE With(r, dt, v, [i \in Cells(r) |-> IF r.m[i] = 1 THEN v ELSE CastVal(r.d[i], r.dt, dt)], r.m)

\* rounding integers to tens, half to even
RoundTens(v) == IF ~IsNum(v) THEN v
  ELSE LET q == v \div 10
           e == v % 10
       IN IF e < 5 THEN q * 10 ELSE IF e > 5 THEN (q + 1) * 10
          ELSE IF q % 2 = 0 THEN q * 10 ELSE (q + 1) * 10
Round(r, dec) ==
  \* other numbers than integers (or the special ones) are rounded to what is not computed here,
  \* and numpy is not exact for numbers that use all the digits of a short float
  IF dec >= 0
  THEN LET exact(v) == Known(v) /\ (dec > 0 /\ IsFloat(r.dt) /\ IsNum(v)
                                     => CASE r.dt = "f2" -> Abs(v) <= 20 [] r.dt = "f4" -> Abs(v) <= 100000 [] OTHER -> TRUE)
       IN [r EXCEPT !.d = [i \in Cells(r) |-> IF exact(r.d[i]) \/ r.m[i] = 1 THEN r.d[i] ELSE ANY]]
  ELSE [r EXCEPT !.d = [i \in Cells(r) |-> IF r.m[i] = 1 THEN r.nv ELSE Wrap(RoundTens(r.d[i]), r.dt)]]

(********************************** bands ************************************)
GetBands(r, bs) ==
  LET P == Plane(r)
      src(i) == (bs[((i - 1) \div P) + 1] - 1) * P + ((i - 1) % P) + 1
  IN [r EXCEPT !.nb = Len(bs), !.d = [i \in 1..(Len(bs) * P) |-> r.d[src(i)]],
               !.m = [i \in 1..(Len(bs) * P) |-> r.m[src(i)]]]

(************************ selection and remapping ****************************)
\* The null value of a conditional selection between x and y
\* (operands, or [k |-> "none"])
WhereScalar(o) == o.k \in {"s", "none"}
\* smallest common type of a set of integer literals
PooledInt(S) ==
  LET lo == SetMin(S)
      hi == SetMax(S)
      ok(dt) == Fits(lo, dt) /\ Fits(hi, dt)
  IN IF ok("u1") THEN "u1" ELSE IF ok("i1") THEN "i1" ELSE IF ok("u2") THEN "u2"
     ELSE IF ok("i2") THEN "i2" ELSE IF ok("u4") THEN "u4" ELSE "i4"
\* common type of literals: ints (sequence of values) pooled, floats one by one
RECURSIVE PromoteAll(_)
PromoteAll(S) == LET t == CHOOSE t \in S : TRUE
                 IN IF S = {t} THEN t ELSE Promote(t, PromoteAll(S \ {t}))
LitType(ints, floats) ==
  PromoteAll((IF ints = {} THEN {} ELSE {PooledInt(ints)}) \cup { MinFloat(v) : v \in floats })
WhereNv(x, y) ==
  IF WhereScalar(x) /\ WhereScalar(y)
  THEN LET ss == {q \in {x, y} : q.k = "s"}
       IN DefaultNull(LitType({q.v : q \in {z \in ss : ~IsFloat(z.dt)}}, {q.v : q \in {z \in ss : IsFloat(z.dt)}}))
  ELSE IF x.k = "r" /\ y.k = "r" THEN DefaultNull(Promote(x.r.dt, y.r.dt))
  ELSE LET q == IF x.k = "r" THEN x.r ELSE y.r
           o == IF x.k = "r" THEN y ELSE x
           \* the type grows to hold an integer that does not fit
           dt == IF o.k = "s" /\ IsIntDt(q.dt) /\ ~IsFloat(o.dt) /\ IsNum(o.v) /\ ~Fits(o.v, q.dt)
                 THEN Promote(q.dt, MinInt(o.v)) ELSE q.dt
       IN IF Masked(q) THEN q.nv ELSE DefaultNull(dt)
\* the documented mask rule; a null or scalar branch equal to the null value is null
WhereMask(c, x, y) ==
  LET nv == WhereNv(x, y)
      nullAt(o, i) == CASE o.k = "r" -> o.r.m[i] = 1 [] o.k = "none" -> TRUE [] o.k = "s" -> o.v = nv
      mk == Masked(c) \/ OpMasked(x) \/ OpMasked(y) \/ x.k = "none" \/ y.k = "none"
  IN [nv |-> IF mk THEN nv ELSE NONE,
      m |-> [i \in Cells(c) |->
        IF ~mk THEN 0
        ELSE B2I(c.m[i] = 1 \/ IF Key(c.d[i]) > 0 THEN nullAt(x, i) ELSE nullAt(y, i))]]
WhereVal(c, x, y, i) == IF Key(c.d[i]) > 0 THEN OpVal(x, c, i) ELSE OpVal(y, c, i)
Where(c, x, y) ==
  LET wm == WhereMask(c, x, y)
      dt == IF x.k = "r" /\ y.k = "r" THEN Promote(x.r.dt, y.r.dt) ELSE "?"
  IN With(c, dt, wm.nv, [i \in Cells(c) |-> IF wm.m[i] = 1 THEN wm.nv ELSE WhereVal(c, x, y, i)], wm.m)

InRange(v, lo, hi, inc) ==
  LET L == IF inc \in {"left", "both"} THEN Key(lo) <= Key(v) ELSE Key(lo) < Key(v)
      R == IF inc \in {"right", "both"} THEN Key(v) <= Key(hi) ELSE Key(v) < Key(hi)
  IN v # NAN /\ L /\ R
\* ranges: sequence of [lo, hi, to] with to possibly NONE (null)
RECURSIVE FirstRange(_, _, _, _)
FirstRange(v, rs, inc, k) ==
  IF k > Len(rs) THEN 0
  ELSE IF InRange(v, rs[k].lo, rs[k].hi, inc) THEN k ELSE FirstRange(v, rs, inc, k + 1)
Remap(r, rs, inc, dt) ==
  LET hasNull == \E k \in 1..Len(rs) : rs[k].to = NONE
      nv == IF Masked(r) THEN r.nv ELSE IF hasNull THEN DefaultNull(dt) ELSE NONE
      val(i) == IF ~Known(r.d[i]) THEN ANY
                ELSE LET k == FirstRange(r.d[i], rs, inc, 1)
                IN IF k = 0 THEN CastVal(r.d[i], r.dt, dt)
                   ELSE IF rs[k].to = NONE THEN nv ELSE rs[k].to
      raw == [i \in Cells(r) |-> IF r.m[i] = 1 THEN nv ELSE val(i)]
  IN With(r, dt, nv, raw, [i \in Cells(r) |-> IF nv # NONE /\ r.m[i] = 0 /\ raw[i] = ANY THEN ANY
                               ELSE B2I(nv # NONE /\ (r.m[i] = 1 \/ raw[i] = nv))])
\* mapping: sequence of [from, to] with distinct from
Reclass(r, mp, unmappedNull, dt) ==
  LET hasNull == \E k \in 1..Len(mp) : mp[k].to = NONE
      mk == Masked(r) \/ unmappedNull \/ hasNull
      nv == IF Masked(r) THEN r.nv ELSE IF mk THEN DefaultNull(dt) ELSE NONE
      val(i) == LET ks == {k \in 1..Len(mp) : mp[k].from = r.d[i]} IN
                IF ks # {} THEN (LET t == mp[CHOOSE k \in ks : TRUE].to IN IF t = NONE THEN nv ELSE t)
                ELSE IF unmappedNull THEN nv ELSE CastVal(r.d[i], r.dt, dt)
      raw == [i \in Cells(r) |-> IF r.m[i] = 1 THEN nv ELSE val(i)]
  IN With(r, dt, nv, raw, [i \in Cells(r) |-> IF mk /\ r.m[i] = 0 /\ raw[i] = ANY THEN ANY
                               ELSE B2I(mk /\ (r.m[i] = 1 \/ raw[i] = nv))])

(***************** comparison with an observed raster **********************)
Diff(exp, out) ==
  Clause("shape", exp.nb = out.nb /\ exp.h = out.h /\ exp.w = out.w)
  \cup Clause("dtype", exp.dt = "?" \/ exp.dt = out.dt)
  \cup Clause("null-value", Eqv(exp.nv, out.nv))
  \cup Clause("grid", exp.g = <<>> \/ exp.g = out.g)
  \cup IF Len(out.m) # Len(exp.m) \/ Len(out.d) # Len(exp.d) THEN {"size"}
       ELSE Clause("null-cells", \A i \in 1..Len(exp.m) : Eqv(exp.m[i], out.m[i]))
            \cup Clause("valid-cells", \A i \in 1..Len(exp.d) : exp.m[i] # 0 \/ Eqv(exp.d[i], out.d[i]))
            \cup Clause("null-fill", \A i \in 1..Len(exp.d) : exp.m[i] # 1 \/ Eqv(exp.d[i], out.d[i]))
            \cup Clause("consistent", out.dt \notin DTypes \/ NullConsistent(out))
=============================================================================
