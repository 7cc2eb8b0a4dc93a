------------------------------ MODULE Chunking ------------------------------
(* What a call means does not depend on how its operands are held: cut into  *)
(* chunks or not, loaded or lazy, computed by one thread or in any order.    *)
(* The outcome of a call is a sequence of parts: a kind k, a name s, numbers *)
(* n that are exact and numbers q that are exact if t = 0 and otherwise may  *)
(* differ in their last digit (sums of floating point numbers taken in       *)
(* another order).                                                           *)
EXTENDS VTBase
SPECIALS == 1000000000
Close(a, b, t) == a = b \/ (t > 0 /\ Abs(a) < SPECIALS /\ Abs(b) < SPECIALS /\ Abs(a - b) <= t)
PartDiff(a, b) ==
  Clause("kind", a.k = b.k) \cup Clause("type", a.s = b.s)
  \cup (IF Len(a.n) # Len(b.n) \/ Len(a.q) # Len(b.q) THEN {"size"}
        ELSE Clause("shape-nulls-or-grid", a.n = b.n) \cup Clause("values", \A i \in DOMAIN a.q : Close(a.q[i], b.q[i], Max2(a.t, b.t))))
OutcomeDiff(a, b) ==
  IF a.exc # b.exc THEN {"raised-differently"}
  ELSE IF Len(a.parts) # Len(b.parts) THEN {"number-of-results"}
  ELSE UNION {PartDiff(a.parts[i], b.parts[i]) : i \in DOMAIN a.parts}

(* Calls on arrays cut into chunks.  A cut is the sequence of lengths of the *)
(* pieces of an axis.                                                        *)
RECURSIVE Cuts(_)
Cuts(n) == IF n = 0 THEN {<<>>} ELSE UNION {{<<k>> \o c : c \in Cuts(n - k)} : k \in 1..n}
RECURSIVE Total(_)
Total(c) == IF c = <<>> THEN 0 ELSE c[1] + Total(Tail(c))
From(c, i) == Total(SubSeq(c, 1, i - 1)) + 1
To(c, i) == Total(SubSeq(c, 1, i))
Ends(c) == {To(c, i) : i \in DOMAIN c}
\* the coarsest cut that is finer than both: operands with different chunks are cut alike first
RECURSIVE FromEnds(_, _)
FromEnds(e, last) == IF e = {} THEN <<>> ELSE LET m == SetMin(e) IN <<m - last>> \o FromEnds(e \ {m}, m)
Unify(c, d) == FromEnds(Ends(c) \cup Ends(d), 0)
\* the cut whose pieces are whole groups of k (but for the last)
Multiples(c, k) == LET n == Total(c) IN FromEnds({SetMin({n, ((e + k - 1) \div k) * k}) : e \in Ends(c)}, 0)
Cells(rows, cols, i, j) == (From(rows, i)..To(rows, i)) \X (From(cols, j)..To(cols, j))
BlockIds(rows, cols) == (DOMAIN rows) \X (DOMAIN cols)
=============================================================================
