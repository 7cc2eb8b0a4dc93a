---------------------------- MODULE MC_Chunking ----------------------------
(* Small arrays a and b, cut in every way, a call, and its blocks computed   *)
(* in every order.  The meaning of the call is a function of a and b alone.  *)
EXTENDS Chunking
CONSTANTS H, W, VALS, CALLS, BROKEN
VARIABLES a, b, arows, acols, brows, bcols, call, todo, out
vars == <<a, b, arows, acols, brows, bcols, call, todo, out>>
D == (1..H) \X (1..W)
Val(x, q) == IF q \in DOMAIN x THEN x[q] ELSE 0
Halo(x, q) == SumSeq([k \in 1..9 |-> Val(x, <<q[1] + ((k - 1) \div 3) - 1, q[2] + ((k - 1) % 3) - 1>>)])
K == 2
Group(q) == <<(q[1] + K - 1) \div K, (q[2] + K - 1) \div K>>
RECURSIVE SumOver(_, _)
SumOver(x, s) == IF s = {} THEN 0 ELSE LET q == CHOOSE q \in s : TRUE IN x[q] + SumOver(x, s \ {q})
GroupSum(x, g) == SumOver(x, {q \in DOMAIN x : Group(q) = g})
\* what the calls mean
Meaning ==
  CASE call = "binary" -> [q \in D |-> a[q] + 2 * b[q]]
    [] call = "halo" -> [q \in D |-> Halo(a, q)]
    [] call = "coarsen" -> [g \in {Group(q) : q \in D} |-> GroupSum(a, g)]
    [] call = "total" -> [g \in {<<0, 0>>} |-> SumOver(a, D)]
\* the chunks a call works on
Rows == CASE call = "binary" -> Unify(arows, brows) [] call = "coarsen" -> (IF BROKEN = "groups" THEN arows ELSE Multiples(arows, K)) [] OTHER -> arows
Cols == CASE call = "binary" -> Unify(acols, bcols) [] call = "coarsen" -> (IF BROKEN = "groups" THEN acols ELSE Multiples(acols, K)) [] OTHER -> acols
Sub(x, s) == [q \in s |-> x[q]]
Margin(s) == {q \in D : \E p \in s : Abs(p[1] - q[1]) <= 1 /\ Abs(p[2] - q[2]) <= (IF BROKEN = "margin" THEN 0 ELSE 1)}
\* what one block contributes, from the cells it holds alone
Piece(t) ==
  LET s == Cells(Rows, Cols, t[1], t[2])
  IN CASE call = "binary" -> [q \in s |-> Sub(a, s)[q] + 2 * Sub(b, s)[q]]
       [] call = "halo" -> LET m == TLCEval(Sub(a, Margin(s))) IN [q \in s |-> Halo(m, q)]
       [] call = "coarsen" -> [g \in {Group(q) : q \in s} |-> GroupSum(TLCEval(Sub(a, s)), g)]
       [] call = "total" -> [g \in {<<0, 0>>} |-> SumOver(Sub(a, s), s)]
Join(x, y) == [q \in DOMAIN x \cup DOMAIN y |-> IF call = "total" THEN Val(x, q) + Val(y, q) ELSE IF q \in DOMAIN y THEN y[q] ELSE x[q]]
Init ==
  /\ a \in [D -> VALS] /\ b = [q \in D |-> (q[1] + q[2]) % 3]
  /\ arows \in Cuts(H) /\ acols \in Cuts(W) /\ call \in CALLS
  /\ brows \in (IF call = "binary" THEN Cuts(H) ELSE {<<H>>}) /\ bcols \in (IF call = "binary" THEN Cuts(W) ELSE {<<W>>})
  /\ todo = BlockIds(Rows, Cols) /\ out = [q \in {} |-> 0]
Next == \E t \in todo : /\ todo' = todo \ {t} /\ out' = Join(out, Piece(t)) /\ UNCHANGED <<a, b, arows, acols, brows, bcols, call>>
Spec == Init /\ [][Next]_vars
SameMeaning == todo = {} => out = Meaning
\* the blocks of the cut are a partition of the array
Partition == \A q \in D : Cardinality({t \in BlockIds(Rows, Cols) : q \in Cells(Rows, Cols, t[1], t[2])}) = 1
Finer == call = "binary" => \A t \in BlockIds(Rows, Cols) : \E u \in BlockIds(arows, acols), v \in BlockIds(brows, bcols) :
  Cells(Rows, Cols, t[1], t[2]) \subseteq Cells(arows, acols, u[1], u[2]) /\ Cells(Rows, Cols, t[1], t[2]) \subseteq Cells(brows, bcols, v[1], v[2])
=============================================================================
