----------------------------- MODULE MC_Surface -----------------------------
(* Symmetries the surface formulas must have: the state is a 3x3 neighbour-  *)
(* hood that is mirrored, transposed, raised and scaled.                     *)
EXTENDS Surface
CONSTANTS Values, Steps
VARIABLES z, z0, sx, sy, swap, up, n
vars == <<z, z0, sx, sy, swap, up, n>>
R(d) == [dt |-> "u1", nv |-> NONE, nb |-> 1, h |-> 3, w |-> 3, d |-> d, m |-> [i \in 1..9 |-> 0], g |-> <<>>]
P(y, x) == 3 * y + x + 1
Init == /\ z \in [1..9 -> Values] /\ z[5] \in Values /\ z0 = z
        /\ sx = 1 /\ sy = 1 /\ swap = FALSE /\ up = 0 /\ n = 0
MirrorX == /\ z' = [i \in 1..9 |-> z[P((i - 1) \div 3, 2 - ((i - 1) % 3))]] /\ sx' = -sx /\ UNCHANGED <<z0, sy, swap, up>>
MirrorY == /\ z' = [i \in 1..9 |-> z[P(2 - ((i - 1) \div 3), (i - 1) % 3)]] /\ sy' = -sy /\ UNCHANGED <<z0, sx, swap, up>>
\* swapping the east and the north axis
Transpose == /\ z' = [i \in 1..9 |-> z[P(2 - ((i - 1) % 3), 2 - ((i - 1) \div 3))]]
             /\ swap' = ~swap /\ sx' = sy /\ sy' = sx /\ UNCHANGED <<z0, up>>
Raise == /\ z' = [i \in 1..9 |-> z[i] + 1] /\ up' = up + 1 /\ UNCHANGED <<z0, sx, sy, swap>>
Next == n < Steps /\ n' = n + 1 /\ (MirrorX \/ MirrorY \/ Transpose \/ Raise)
Spec == Init /\ [][Next]_vars
A == R(z)
B == R(z0)
Gradient == IF swap THEN DX(A, 5) = sx * DY(B, 5) /\ DY(A, 5) = sy * DX(B, 5)
            ELSE DX(A, 5) = sx * DX(B, 5) /\ DY(A, 5) = sy * DY(B, 5)
Invariant == /\ Slope256(A, 5, 2, 2) = Slope256(B, 5, 2, 2)
             /\ Curv64(A, 5, 1, 2) = Curv64(B, 5, 1, 2)
             /\ Area64(A, 5, 2) = Area64(B, 5, 2)
             /\ Area64(A, 5, 2) >= 4 * 64 - 8
             /\ Shade(A, 5, 1, 1, 5, 6) = Shade(B, 5, 1, 1, 5, 6)
             /\ Shade(A, 5, 1, 1, 5, 3) \in 0..255
Flat == (\A i \in 1..9 : z[i] = z[1]) => Slope256(A, 5, 1, 1) = 0 /\ Curv64(A, 5, 1, 1) = 0 /\ Area64(A, 5, 3) = 576
=============================================================================
