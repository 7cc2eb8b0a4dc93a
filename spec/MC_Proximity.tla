---------------------------- MODULE MC_Proximity ----------------------------
(* The sweep, one line a step, over every set of targets on a small grid:    *)
(* exact for the taxicab and chessboard metrics and for up to two targets,   *)
(* never too small and always the distance of some target.                   *)
EXTENDS Proximity
CONSTANTS H, W, Metrics, Sizes, Maxima, ExactUpTo, MaxTargets
VARIABLES p, y, down, pan, prox
vars == <<p, y, down, pan, prox>>
C == 1..(H * W)
Init == /\ p \in [h : {H}, w : {W}, ry : {4}, rx : Sizes, met : Metrics, mx : Maxima,
                  t : {t \in [C -> BOOLEAN] : Cardinality({i \in C : t[i]}) <= MaxTargets}]
        /\ y = 0 /\ down = TRUE /\ pan = State0(p).pan /\ prox = [i \in C |-> NONE]
LineOf(s, v) == [i \in C |-> IF Row(p, i) = y THEN s.line[Col(p, i) + 1] ELSE v[i]]
StepDown == /\ down
            /\ LET s == LineDown(p, y, pan) IN
               /\ prox' = LineOf(s, prox)
               /\ IF y = H - 1 THEN down' = FALSE /\ pan' = State0(p).pan /\ y' = y
                  ELSE down' = TRUE /\ pan' = s.pan /\ y' = y + 1
            /\ UNCHANGED p
StepUp == /\ ~down /\ y >= 0
          /\ LET s == LineUp(p, y, pan, [x \in 1..W |-> prox[y * W + x]]) IN
             prox' = LineOf(s, prox) /\ pan' = s.pan
          /\ y' = y - 1 /\ UNCHANGED <<p, down>>
Next == StepDown \/ StepUp
Spec == Init /\ [][Next]_vars
Done == y = -1
Exact == (Done /\ (p.met # "euclidean" \/ Cardinality(Targets(p)) <= ExactUpTo)) => \A i \in C : prox[i] = Nearest(p, i)
Sound == \A i \in C : prox[i] = NONE \/ (prox[i] \in {Dist2(p, i, j) : j \in Targets(p)} /\ Within(p, prox[i]))
Same == Done => [i \in C |-> prox[i]] = Sweep(p)
\* passes only bring cells nearer
Shrinks == [][\A i \in C : prox[i] = NONE \/ prox'[i] <= prox[i]]_prox
=============================================================================
