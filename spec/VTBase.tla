------------------------------- MODULE VTBase -------------------------------
(* Common vocabulary of all the specifications: encodings of cell values,    *)
(* data types and their promotion lattice, default null values, and small    *)
(* helpers.  A cell value is an integer; values that are no small integer    *)
(* are encoded by an injective code (see ANY, NAN, ... below and vt/enc.py). *)
EXTENDS Integers, Sequences, FiniteSets, TLC, FiniteSetsExt, SequencesExt

NONE   == 2000000000      \* "no null value"
NAN    == 2000000001
PINF   == 2000000002
NINF   == 2000000003
\* default null values that are no 32-bit integers
NV_U4  == 2000000010
NV_U8  == 2000000011
NV_I4  == 2000000012
NV_I8  == 2000000013
ANY    == 2000000098      \* in an expectation: unconstrained

IsNum(v) == v < 1000000000 /\ v > -1000000000

Kind(dt) == CASE dt = "b1" -> "b"
              [] dt \in {"u1","u2","u4","u8"} -> "u"
              [] dt \in {"i1","i2","i4","i8"} -> "i"
              [] dt \in {"f2","f4","f8"} -> "f"
Size(dt) == CASE dt \in {"b1","u1","i1"} -> 1
              [] dt \in {"u2","i2","f2"} -> 2
              [] dt \in {"u4","i4","f4"} -> 4
              [] dt \in {"u8","i8","f8"} -> 8
Mk(k, s) == CASE k = "u" -> (CASE s=1->"u1" [] s=2->"u2" [] s=4->"u4" [] s=8->"u8")
              [] k = "i" -> (CASE s=1->"i1" [] s=2->"i2" [] s=4->"i4" [] s=8->"i8")
              [] k = "f" -> (CASE s=2->"f2" [] s=4->"f4" [] s=8->"f8")
IsFloat(dt) == Kind(dt) = "f"
IsIntDt(dt) == Kind(dt) \in {"u","i"}
DTypes == {"b1","u1","u2","u4","u8","i1","i2","i4","i8","f2","f4","f8"}

Max2(a, b) == IF a >= b THEN a ELSE b
Min2(a, b) == IF a <= b THEN a ELSE b
Abs(a) == IF a < 0 THEN -a ELSE a

\* numpy's promotion of two data types
Promote(a, b) ==
  IF a = b THEN a
  ELSE IF a = "b1" THEN b
  ELSE IF b = "b1" THEN a
  ELSE IF Kind(a) = Kind(b) THEN Mk(Kind(a), Max2(Size(a), Size(b)))
  ELSE IF IsFloat(a) \/ IsFloat(b)
       THEN LET f == IF IsFloat(a) THEN a ELSE b
                i == IF IsFloat(a) THEN b ELSE a
                m == CASE Size(i) = 1 -> 2 [] Size(i) = 2 -> 4 [] OTHER -> 8
            IN  Mk("f", Max2(Size(f), m))
  ELSE LET u == IF Kind(a) = "u" THEN a ELSE b
           i == IF Kind(a) = "u" THEN b ELSE a
       IN  IF Size(i) > Size(u) THEN i
           ELSE IF Size(u) = 8 THEN "f8"
           ELSE Mk("i", 2 * Size(u))
\* numpy's safe casting
CanCast(a, b) == Promote(a, b) = b

\* the data type of the real-valued functions of a type
FloatOf(dt) == IF IsFloat(dt) THEN dt
               ELSE CASE Size(dt) = 1 -> "f2" [] Size(dt) = 2 -> "f4" [] OTHER -> "f8"

DefaultNull(dt) ==
  CASE dt = "b1" -> 1
    [] dt = "u1" -> 255
    [] dt = "u2" -> 65535
    [] dt = "u4" -> NV_U4
    [] dt = "u8" -> NV_U8
    [] dt = "i1" -> -128
    [] dt = "i2" -> -32768
    [] dt = "i4" -> NV_I4
    [] dt = "i8" -> NV_I8
    [] dt = "f2" -> -65504
    [] dt \in {"f4","f8"} -> -999999

\* smallest integer type holding v (numpy prefers the unsigned ones)
MinInt(v) ==
  IF v = NV_U4 THEN "u4" ELSE IF v = NV_U8 THEN "u8"
  ELSE IF v = NV_I4 THEN "i4" ELSE IF v = NV_I8 THEN "i8"
  ELSE IF v >= 0 THEN (IF v <= 255 THEN "u1" ELSE IF v <= 65535 THEN "u2" ELSE "u4")
  ELSE (IF v >= -128 THEN "i1" ELSE IF v >= -32768 THEN "i2" ELSE "i4")
\* integers exactly representable in half precision
F2Exact(v) == LET a == Abs(v) IN
  \/ a <= 2048
  \/ (a <= 4096 /\ a % 2 = 0)
  \/ (a <= 8192 /\ a % 4 = 0)
  \/ (a <= 16384 /\ a % 8 = 0)
  \/ (a <= 32768 /\ a % 16 = 0)
  \/ (a <= 65504 /\ a % 32 = 0)
MinFloat(v) == IF v \in {NAN, PINF, NINF} THEN "f2"
               ELSE IF v = NV_I4 \/ v = NV_I8 THEN "f4"
               ELSE IF v = NV_U4 THEN "f8"
               ELSE IF v = NV_U8 THEN "f8"
               ELSE IF F2Exact(v) THEN "f2" ELSE IF Abs(v) <= 16777216 THEN "f4" ELSE "f8"

\* does the small integer v fit the type
Fits(v, dt) ==
  CASE dt = "b1" -> v \in {0, 1}
    [] dt = "u1" -> v >= 0 /\ v <= 255
    [] dt = "u2" -> v >= 0 /\ v <= 65535
    [] dt \in {"u4","u8"} -> v >= 0
    [] dt = "i1" -> v >= -128 /\ v <= 127
    [] dt = "i2" -> v >= -32768 /\ v <= 32767
    [] dt \in {"i4","i8"} -> TRUE
    [] OTHER -> TRUE

\* wrap-around of an integer result; ANY where the code cannot be computed here
Wrap(v, dt) ==
  IF ~IsNum(v) THEN ANY
  ELSE CASE dt = "b1" -> IF v = 0 THEN 0 ELSE 1
    [] dt = "u1" -> v % 256
    [] dt = "u2" -> v % 65536
    [] dt = "i1" -> ((v + 128) % 256) - 128
    [] dt = "i2" -> ((v + 32768) % 65536) - 32768
    [] dt \in {"u4","u8"} -> IF v >= 0 THEN v ELSE ANY
    [] dt \in {"i4","i8"} -> v
    [] dt = "f2" -> IF F2Exact(v) THEN v ELSE ANY
    [] dt = "f4" -> IF Abs(v) <= 16777216 THEN v ELSE ANY
    [] OTHER -> v

\* equality with an expectation
Eqv(exp, obs) == exp = ANY \/ exp = obs

Clause(name, ok) == IF ok THEN {} ELSE {name}
B2I(b) == IF b THEN 1 ELSE 0
RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumSeq(Tail(s))
SumF(f(_), lo, hi) == MapThenSumSet(f, lo..hi)
SetMin(S) == CHOOSE x \in S : \A y \in S : x <= y
SetMax(S) == CHOOSE x \in S : \A y \in S : x >= y
RECURSIVE SortSet(_)
SortSet(S) == IF S = {} THEN <<>> ELSE LET m == SetMin(S) IN <<m>> \o SortSet(S \ {m})
RECURSIVE InsertSorted(_, _)
InsertSorted(s, v) == IF s = <<>> THEN <<v>>
                      ELSE IF v <= Head(s) THEN <<v>> \o s ELSE <<Head(s)>> \o InsertSorted(Tail(s), v)
RECURSIVE SortSeq1(_)
SortSeq1(s) == IF s = <<>> THEN <<>> ELSE InsertSorted(SortSeq1(Tail(s)), Head(s))
=============================================================================
