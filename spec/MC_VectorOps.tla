---------------------------- MODULE MC_VectorOps ----------------------------
(* Sessions over one vector split into partitions: identifiers are assigned  *)
(* partition by partition in any order; shuffles move features between       *)
(* partitions.                                                               *)
EXTENDS VectorOps
CONSTANTS N, MAXPARTS, BASE, STEPS
VARIABLES parts, work, nids, steps
vars == <<parts, work, nids, steps>>
\* parts: sequence of sequences of features [id, ids]; work: partitions still to be numbered
RECURSIVE Flat(_)
Flat(ps) == IF ps = <<>> THEN <<>> ELSE Head(ps) \o Flat(Tail(ps))
Feature(i) == [id |-> i, ids |-> <<>>]
RECURSIVE Cut(_, _)
Cut(s, lens) == IF lens = <<>> THEN <<>> ELSE <<SubSeq(s, 1, Head(lens))>> \o Cut(SubSeq(s, Head(lens) + 1, Len(s)), Tail(lens))
Lens(p) == {l \in [1..p -> 0..N] : SumSeq(l) = N}
Init == /\ \E p \in 1..MAXPARTS : \E l \in Lens(p) : parts = Cut([i \in 1..N |-> Feature(i)], l)
        /\ work = {} /\ nids = 0 /\ steps = 0
AddIds == /\ work = {} /\ steps < STEPS
          /\ work' = DOMAIN parts /\ nids' = nids + 1 /\ steps' = steps + 1 /\ parts' = parts
Number(k) == /\ k \in work
             /\ parts' = [parts EXCEPT ![k] = [j \in DOMAIN parts[k] |-> [parts[k][j] EXCEPT !.ids = Append(@, j + (k - 1) * BASE)]]]
             /\ work' = work \ {k} /\ UNCHANGED <<nids, steps>>
Shuffle == /\ work = {} /\ steps < STEPS
           /\ \E p \in 1..MAXPARTS : \E l \in Lens(p) : \E perm \in {q \in [1..N -> 1..N] : Injective(q)} :
                LET f == Flat(parts) IN parts' = Cut([i \in 1..N |-> f[perm[i]]], l)
           /\ steps' = steps + 1 /\ UNCHANGED <<work, nids>>
Next == AddIds \/ Shuffle \/ \E k \in DOMAIN parts : Number(k)
Spec == Init /\ [][Next]_vars
EachOnce == LET f == Flat(parts) IN Len(f) = N /\ \A i \in 1..N : \E k \in 1..N : f[k].id = i
Unique == LET f == Flat(parts) IN work = {} => \A c \in 1..nids : Injective([k \in 1..N |-> f[k].ids[c]])
\* numbering partitions in any order gives the numbers of the definition
AsDefined == LET f == Flat(parts) IN (work = {} /\ steps = 1 /\ nids = 1) =>
  [k \in 1..N |-> f[k].ids[1]] = IdsFrom([k \in DOMAIN parts |-> Len(parts[k])], 1, BASE)
=============================================================================
