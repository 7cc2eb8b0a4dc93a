---------------------------- MODULE MC_BlockGeo ----------------------------
(* All chunkings of a raster and all sequences of operations on its blocks.  *)
EXTENDS BlockGeo
CONSTANTS H, W, AMOUNT, STEPS
VARIABLES chunks, b, first, sum, n
vars == <<chunks, b, first, sum, n>>
P == [nb |-> 2, h |-> H, w |-> W, x0 |-> 32, y0 |-> 64, rx |-> 4, ry |-> 6]
RECURSIVE Splits(_)
Splits(k) == IF k = 0 THEN {<<>>} ELSE UNION {{<<a>> \o s : s \in Splits(k - a)} : a \in 1..k}
Init == /\ chunks \in {<<x, y, z>> : x \in Splits(2), y \in Splits(H), z \in Splits(W)}
        /\ \E loc \in Locs(chunks) : b = Block(chunks, loc)
        /\ first = b
        /\ sum = <<0, 0, 0, 0>>
        /\ n = 0
Amt == -AMOUNT..AMOUNT
Calls == {<<op, <<i, j>>>> : op \in {"pad_y", "pad_x", "pad", "shift"}, i \in Amt, j \in Amt} \cup {<<op, <<i>>>> : op \in {"pad", "shift", "shift_y", "shift_x"}, i \in Amt}
Next == /\ n < STEPS
        /\ \E c \in Calls :
             /\ Can(b, c[1], c[2])
             /\ b' = Apply(b, c[1], c[2])
             /\ sum' = [k \in 1..4 |-> sum[k] + Amounts(c[1], c[2])[k]]
        /\ n' = n + 1
        /\ UNCHANGED <<chunks, first>>
Spec == Init /\ [][Next]_vars
\* the blocks of a raster tile it
Tiles == n = 0 =>
  LET B == {Block(chunks, loc) : loc \in Locs(chunks)}
  IN /\ UNION {CellsOf(q) : q \in B} = CellsOf([b0 |-> 0, b1 |-> 2, r0 |-> 0, r1 |-> H, c0 |-> 0, c1 |-> W])
     /\ \A q1, q2 \in B : q1 # q2 => CellsOf(q1) \cap CellsOf(q2) = {}
\* operations add up, whatever their order, and are undone by their opposites
Additive == b = Resize(first, sum[1], sum[2], sum[3], sum[4])
Undone == \A c \in Calls : Can(b, c[1], c[2]) => Apply(Apply(b, c[1], c[2]), c[1], [k \in DOMAIN c[2] |-> 0 - c[2][k]]) = b
\* shifting keeps the size; the coordinates are those of the cells of the raster
Shifts == \A i \in Amt : Shape(Apply(b, "shift", <<i>>)) = Shape(b)
Located == /\ \A i \in 1..Cols(b) : 2 * Xs(P, b)[i] = 2 * (BBox(P, b)[1] + (i - 1) * P.rx) + P.rx
           /\ \A i \in 1..Rows(b) : 2 * Ys(P, b)[i] = 2 * (BBox(P, b)[4] - (i - 1) * P.ry) - P.ry
           /\ BBox(P, b)[3] - BBox(P, b)[1] = Cols(b) * P.rx /\ BBox(P, b)[4] - BBox(P, b)[2] = Rows(b) * P.ry
           /\ LET A == AffineOf(P, b.r0, b.c0) IN A[3] = BBox(P, b)[1] /\ A[6] = BBox(P, b)[4]
=============================================================================
