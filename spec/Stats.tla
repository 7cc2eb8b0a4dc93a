-------------------------------- MODULE Stats --------------------------------
(* Statistics of sequences of small integers, in fixed point.                *)
EXTENDS VTBase

\* floor of num * s / den without leaving 32 bits (den > 0)
FixDiv(num, den, s) == (num \div den) * s + ((num % den) * s) \div den
RECURSIVE Bisect(_, _, _)
Bisect(lo, hi, n) == IF lo >= hi THEN lo
                     ELSE LET mid == (lo + hi + 1) \div 2 IN
                          IF mid * mid <= n THEN Bisect(mid, hi, n) ELSE Bisect(lo, mid - 1, n)
ISqrt(n) == Bisect(0, 46340, n)

\* round(ln(k) * 65536)
LnTab == <<0, 45426, 71999, 90852, 105476, 117425, 127527, 136278, 143997, 150902, 157148, 162851, 168097, 172953, 177475, 181704, 185677, 189423, 192967, 196328, 199526, 202575, 205488, 208277, 210952, 213523, 215996, 218379, 220679, 222901, 225050, 227130, 229147, 231104, 233003, 234849, 236645, 238393, 240095, 241754, 243373, 244952, 246494, 248001, 249473, 250914, 252323, 253703, 255054, 256378, 257676, 258949, 260197, 261422, 262625, 263805, 264965, 266105, 267225, 268327, 269410, 270476, 271524, 272557, 273573, 274573, 275559, 276530, 277486, 278429, 279359, 280276, 281180, 282071, 282951, 283819, 284676, 285521, 286356, 287180, 287995, 288799, 289593, 290378, 291154, 291920, 292678, 293427, 294167, 294900, 295624, 296340, 297048, 297749, 298443, 299129, 299808, 300480, 301146, 301804, 302457, 303102, 303742, 304375, 305002, 305623, 306239, 306848, 307452, 308051, 308644, 309232, 309814, 310392, 310964, 311531, 312094, 312652, 313205, 313753, 314297, 314836, 315371, 315902, 316428, 316951, 317469, 317983, 318493, 318999, 319501, 319999, 320494, 320985, 321472, 321956, 322436, 322912, 323386, 323855, 324322, 324785, 325245, 325702>>
LN(k) == LnTab[k]

Sorted(q) == SortSeq(q, LAMBDA a, b: a < b)
Freq(q, v) == Cardinality({j \in 1..Len(q) : q[j] = v})
Distinct(q) == {q[j] : j \in 1..Len(q)}
SeqMin(q) == SetMin(Distinct(q))
SeqMax(q) == SetMax(Distinct(q))
Mode(q) == LET top == SetMax({Freq(q, v) : v \in Distinct(q)})
           IN SetMin({v \in Distinct(q) : Freq(q, v) = top})
RECURSIVE Prod(_)
Prod(q) == IF q = <<>> THEN 1 ELSE LET p == Prod(Tail(q)) IN IF p = ANY \/ Abs(p) > 2000000 THEN ANY ELSE Head(q) * p
\* n^2 times the variance
VarNum(q) == Len(q) * SumSeq([j \in 1..Len(q) |-> q[j] * q[j]]) - SumSeq(q) * SumSeq(q)

\* position (0-based) of the first smallest or largest element, v = NOVAL elements being skipped
NOVAL == 2000000097
ArgMin(q) == LET V == {j \in 1..Len(q) : q[j] # NOVAL} IN
             SetMin({j \in V : \A k \in V : q[j] <= q[k]}) - 1
ArgMax(q) == LET V == {j \in 1..Len(q) : q[j] # NOVAL} IN
             SetMin({j \in V : \A k \in V : q[j] >= q[k]}) - 1
Valids(q) == SelectSeq(q, LAMBDA v: v # NOVAL)

\* s times the statistic of the non-empty sequence q
Stat(stat, q, s) ==
  CASE stat = "min" -> SeqMin(q) * s
    [] stat = "max" -> SeqMax(q) * s
    [] stat = "sum" -> SumSeq(q) * s
    [] stat = "count" -> Len(q) * s
    [] stat = "range" -> (SeqMax(q) - SeqMin(q)) * s
    [] stat = "size" -> Len(q) * s
    [] stat = "prod" -> LET p == Prod(q) IN IF p = ANY \/ Abs(p) > 2000000 THEN ANY ELSE p * s
    [] stat = "mean" -> FixDiv(SumSeq(q), Len(q), s)
    [] stat = "median" -> LET t == Sorted(q) n == Len(q) IN
                          IF n % 2 = 1 THEN t[(n + 1) \div 2] * s
                          ELSE FixDiv(t[n \div 2] + t[n \div 2 + 1], 2, s)
    [] stat = "mode" -> Mode(q) * s
    [] stat = "unique" -> Cardinality(Distinct(q)) * s
    [] stat = "var" -> FixDiv(VarNum(q), Len(q) * Len(q), s)
    [] stat = "std" -> ISqrt(FixDiv(VarNum(q), Len(q) * Len(q), s * s))
    [] stat = "asm" -> FixDiv(FoldSet(LAMBDA v, a: a + Freq(q, v) * Freq(q, v), 0, Distinct(q)), Len(q) * Len(q), s)
    [] stat = "entropy" ->
         LET e == LN(Len(q)) - FoldSet(LAMBDA v, a: a + Freq(q, v) * LN(Freq(q, v)), 0, Distinct(q)) \div Len(q)
         IN FixDiv(e, 65536, s)
\* statistics that are exact
Exact == {"min", "max", "sum", "mode", "unique", "count", "prod", "range", "size", "minband", "maxband"}
Near(stat, exp, obs) ==
  exp = ANY \/ (IF stat \in Exact THEN exp = obs ELSE IF obs > 1000000000 THEN FALSE ELSE Abs(exp - obs) <= 2)
=============================================================================
