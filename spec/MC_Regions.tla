----------------------------- MODULE MC_Regions -----------------------------
(* Labelling blocks one after another and joining labels across the borders  *)
(* of blocks gives the regions of the whole, wherever the borders run.       *)
EXTENDS Regions
CONSTANTS H, W, Values, Conns, AnyOrder
VARIABLES v, conn, cut, lab, todo
vars == <<v, conn, cut, lab, todo>>
C == 1..(H * W)
X(i) == (i - 1) % W
Y(i) == (i - 1) \div W
Block(i) == <<Y(i) < cut[1], X(i) < cut[2]>>
Blocks == {Block(i) : i \in C}
Init == /\ v \in [C -> Values] /\ conn \in Conns /\ cut \in (0..(H - 1)) \X (0..(W - 1))
        /\ lab = [i \in C |-> 0]
        /\ todo = [blocks |-> Blocks, pairs |-> {p \in C \X C : p[1] < p[2] /\ p[2] \in Around(H, W, p[1], conn)
                                                   /\ Block(p[1]) # Block(p[2]) /\ v[p[1]] = v[p[2]] /\ v[p[1]] # NONE}]
\* labels of a block start after those in use
Label(b) ==
  /\ b \in todo.blocks
  /\ LET vb == [i \in C |-> IF Block(i) = b THEN v[i] ELSE NONE]
         c == Components(H, W, vb, conn)
         top == SetMax({lab[i] : i \in C})
     IN lab' = [i \in C |-> IF c[i] = 0 THEN lab[i] ELSE top + c[i]]
  /\ todo' = [todo EXCEPT !.blocks = @ \ {b}] /\ UNCHANGED <<v, conn, cut>>
Join(p) ==
  /\ todo.blocks = {} /\ p \in todo.pairs
  /\ lab' = [i \in C |-> IF lab[i] = lab[p[2]] THEN lab[p[1]] ELSE lab[i]]
  /\ todo' = [todo EXCEPT !.pairs = @ \ {p}] /\ UNCHANGED <<v, conn, cut>>
\* any order gives the same; a fixed one keeps the state space small
Next == IF todo.blocks # {} THEN Label(CHOOSE b \in todo.blocks : TRUE)
        ELSE IF todo.pairs # {} THEN (IF AnyOrder THEN \E p \in todo.pairs : Join(p) ELSE Join(CHOOSE p \in todo.pairs : TRUE)) ELSE FALSE
Spec == Init /\ [][Next]_vars
Done == todo.blocks = {} /\ todo.pairs = {}
Right == Done => Labelled(H, W, v, conn, lab) = {}
\* labels never join cells that do not belong together
Never == \A i, j \in C : (lab[i] # 0 /\ lab[i] = lab[j]) => v[i] = v[j]
\* a wrong labelling is refused
Refused == Done => \A i \in C : (v[i] # NONE => Labelled(H, W, v, conn, [lab EXCEPT ![i] = 0]) # {})
                             /\ (v[i] = NONE => Labelled(H, W, v, conn, [lab EXCEPT ![i] = 1]) # {})
=============================================================================
