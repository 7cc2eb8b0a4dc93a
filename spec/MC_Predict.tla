------------------------------ MODULE MC_Predict ------------------------------
(* Prediction as a process over blocks of cells (rows of a table): blocks    *)
(* are predicted in any order, each writing its own cells.                   *)
EXTENDS Predict
CONSTANTS W, NB, VALUES
VARIABLES r, todo, acc, seen
vars == <<r, todo, acc, seen>>
Model == <<[w |-> [j \in 1..NB |-> IF j = 1 THEN 1 ELSE 7 ^ (j - 1)], c |-> 0], [w |-> [j \in 1..NB |-> 0 - j], c |-> 5]>>
NULLV == 9
Ras(d) == [dt |-> "i2", nv |-> NULLV, nb |-> NB, h |-> 1, w |-> W, d |-> d, m |-> [i \in 1..(NB * W) |-> B2I(d[i] = NULLV)], g |-> <<>>]
\* all partitions of the cells into intervals
Cuts == {s \in SUBSET (1..(W - 1)) : TRUE}
Blocks(cut) == {<<a, b>> \in (1..W) \X (1..W) : a <= b /\ (a = 1 \/ (a - 1) \in cut) /\ (b = W \/ b \in cut) /\ \A c \in cut : c < a \/ c >= b}
K == Len(Model)
Init == /\ r \in {Ras(d) : d \in [1..(NB * W) -> VALUES \cup {NULLV}]}
        /\ \E cut \in Cuts : todo = Blocks(cut)
        /\ acc = [k \in 1..K |-> [p \in 1..W |-> <<>>]]
        /\ seen = [p \in 1..W |-> 0]
Part(a, b) == [r EXCEPT !.w = b - a + 1, !.d = [i \in 1..(NB * (b - a + 1)) |-> r.d[((i - 1) \div (b - a + 1)) * W + ((i - 1) % (b - a + 1)) + a]],
                        !.m = [i \in 1..(NB * (b - a + 1)) |-> r.m[((i - 1) \div (b - a + 1)) * W + ((i - 1) % (b - a + 1)) + a]]]
Do(b) == LET q == PredictRaster(Part(b[1], b[2]), Model)
             n == b[2] - b[1] + 1
         IN /\ acc' = [k \in 1..K |-> [p \in 1..W |-> IF p \in b[1]..b[2] THEN <<q.d[(k - 1) * n + p - b[1] + 1], q.m[(k - 1) * n + p - b[1] + 1]>> ELSE acc[k][p]]]
            /\ seen' = [p \in 1..W |-> IF p \in b[1]..b[2] THEN seen[p] + 1 ELSE seen[p]]
            /\ todo' = todo \ {b}
            /\ UNCHANGED r
Next == \E b \in todo : Do(b)
Spec == Init /\ [][Next]_vars
Done == todo = {}
Whole == Done => LET q == PredictRaster(r, Model)
                 IN \A k \in 1..K : \A p \in 1..W : acc[k][p] = <<q.d[(k - 1) * W + p], q.m[(k - 1) * W + p]>>
Once == /\ \A p \in 1..W : seen[p] <= 1
        /\ Done => \A p \in 1..W : seen[p] = 1
\* the rows of a table with the null cells missing are predicted like the cells
Rows == [p \in 1..W |-> [b \in 1..NB |-> IF r.m[(b - 1) * W + p] = 1 THEN NAN ELSE r.d[(b - 1) * W + p]]]
Table == Done => \A p \in 1..W : \A k \in 1..K :
   PredictTable(Rows, Model)[p][k] = (IF acc[k][p][2] = 1 THEN NAN ELSE acc[k][p][1])
=============================================================================
