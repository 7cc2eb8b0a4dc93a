---------------------------- MODULE MC_LineStats ----------------------------
(* Lines on a row of cells: a feature is a set of unit pieces.  Features are *)
(* dealt to partitions, cells to chunks; a chunk sees a partition's features *)
(* clipped to its own surroundings, splits them into batches of pieces and   *)
(* adds up.  However this is done every cell gets the weighted number of     *)
(* pieces within its radius.                                                 *)
EXTENDS LineStats
CONSTANTS W, R, F, BATCH
VARIABLES feats, w, part, cuts, todo, acc, cell
vars == <<feats, w, part, cuts, todo, acc, cell>>
Cellset == 1..W
Pieces == 1..W
Near1(c) == {p \in Pieces : Abs(p - c) <= R}
Chunks(cs) == {q \in (1..W) \X (1..W) : q[1] <= q[2] /\ (q[1] = 1 \/ (q[1] - 1) \in cs) /\ (q[2] = W \/ q[2] \in cs) /\ \A c \in cs : c < q[1] \/ c >= q[2]}
Init == /\ feats \in [1..F -> SUBSET Pieces]
        /\ w \in [1..F -> {3, -2}]
        /\ part \in {q \in [1..F -> {1, 2}] : q[1] = 1}
        /\ \E cs \in SUBSET (1..(W - 1)) :
             /\ cuts = cs
             /\ todo = {<<q, p>> : q \in Chunks(cs), p \in {1, 2}}
        /\ acc = [c \in Cellset |-> 0]
        /\ cell = <<>>
\* what chunk q keeps of a feature: its surroundings
Clip(q, s) == {p \in s : p >= q[1] - R /\ p <= q[2] + R}
\* batches: the clipped pieces of the partition in any grouping, here by remainder
Batches(q, p) == {{<<f, x>> \in (1..F) \X Pieces : part[f] = p /\ x \in Clip(q, feats[f]) /\ (f + x) % BATCH = k} : k \in 0..(BATCH - 1)}
RECURSIVE Total(_)
Total(S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN w[x[1]] + Total(S \ {x})
RECURSIVE Over(_, _)
Over(B, c) == IF B = {} THEN 0 ELSE LET b == CHOOSE b \in B : TRUE IN Total({x \in b : x[2] \in Near1(c)}) + Over(B \ {b}, c)
Do(t) == /\ acc' = [c \in Cellset |-> IF c \in t[1][1]..t[1][2] THEN acc[c] + Over(Batches(t[1], t[2]), c) ELSE acc[c]]
         /\ todo' = todo \ {t}
         /\ UNCHANGED <<feats, w, part, cuts, cell>>
Next == \E t \in todo : Do(t)
Spec == Init /\ [][Next]_vars
Exact(c) == LET lo == [f \in 1..F |-> [x \in Cellset |-> 1000 * Cardinality(feats[f] \cap Near1(x))]] IN LoAt(lo, lo, w, c)
Additive == todo = {} => \A c \in Cellset : 1000 * acc[c] = Exact(c)
Interval == LET lo == [f \in 1..F |-> [x \in Cellset |-> 1000 * Cardinality(feats[f] \cap Near1(x))]]
            IN \A c \in Cellset : LoAt(lo, lo, w, c) = HiAt(lo, lo, w, c)
=============================================================================
