---------------------------- MODULE MC_Frontier ----------------------------
(* The tournament tree of the implementation (levels, pairs, a cross         *)
(* reference from values to leaves, growth and shrinkage by one level)       *)
(* refines the abstract queue.                                               *)
EXTENDS Frontier
CONSTANTS Capacity, MaxV, KeyValues, Rejected, MaxOps
VARIABLES keys, vals, xref, levels, count, q, last, n
vars == <<keys, vals, xref, levels, count, q, last, n>>
RECURSIVE LevelsFor(_, _)
LevelsFor(c, lv) == IF 2 ^ lv < c THEN LevelsFor(c, lv + 1) ELSE lv
MinLevels == LevelsFor(Capacity, 1)
Leaf0(lv) == 2 ^ lv - 1            \* index of the first leaf
Arr(m, x) == [i \in 0..(m - 1) |-> x]
Init == /\ levels = MinLevels /\ count = 0
        /\ keys = Arr(2 * 2 ^ MinLevels, PINF) /\ vals = Arr(2 ^ MinLevels, -1)
        /\ xref = Arr(MaxV + 1, -1) /\ q = << >> /\ last = "init" /\ n = 0
Left(i) == IF i % 2 = 0 THEN i - 1 ELSE i
RECURSIVE SiftN(_, _, _)
SiftN(ks, i, m) == IF m <= 1 THEN ks
                   ELSE LET l == Left(i) up == (l - 1) \div 2
                        IN SiftN(TLCEval([ks EXCEPT ![up] = Min2(ks[l], ks[l + 1])]), up, m - 1)
Sift(ks, i, lv) == SiftN(ks, i, lv)
RECURSIVE SiftAll(_, _, _)
SiftAll(ks, i, lv) == IF i >= 2 * 2 ^ lv - 1 THEN ks ELSE SiftAll(Sift(ks, i, lv), i + 2, lv)
Resized(ks, vs, c, lv, nl) ==
  LET m == 2 ^ nl
      keep == Min2(2 ^ nl, 2 ^ lv)
      k1 == [i \in 0..(2 * m - 1) |-> IF c > 0 /\ i >= Leaf0(nl) /\ i < Leaf0(nl) + keep THEN ks[Leaf0(lv) + i - Leaf0(nl)] ELSE PINF]
      v1 == [i \in 0..(m - 1) |-> IF c > 0 /\ i < keep THEN vs[i] ELSE -1]
  IN [k |-> SiftAll(TLCEval(k1), Leaf0(nl), nl), v |-> TLCEval(v1)]
\* insertion of a value not held
Insert(k, v) ==
  LET full == count >= 2 ^ levels
      lv == IF full THEN levels + 1 ELSE levels
      z == IF full THEN Resized(keys, vals, count, levels, lv) ELSE [k |-> keys, v |-> vals]
      i == Leaf0(lv) + count
  IN /\ levels' = lv
     /\ keys' = Sift([z.k EXCEPT ![i] = k], i, lv)
     /\ vals' = [z.v EXCEPT ![count] = v]
     /\ xref' = [xref EXCEPT ![v] = count]
     /\ count' = count + 1
Update(k, v) == LET i == Leaf0(levels) + xref[v] IN
  /\ keys' = Sift([keys EXCEPT ![i] = k], i, levels) /\ UNCHANGED <<vals, xref, levels, count>>
Keep == UNCHANGED <<keys, vals, xref, levels, count>>
Push(k, v) ==
  /\ q' = PushTo(q, k, v, MaxV)
  /\ LET f == IF ~Known(v, MaxV) THEN -1 ELSE IF xref[v] # -1 THEN 0 ELSE 1
     IN /\ last' = IF f = PushFlag(q, v, MaxV) THEN "push" ELSE "wrong"
        /\ IF f = -1 THEN Keep ELSE IF f = 0 THEN Update(k, v) ELSE Insert(k, v)
PushLower(k, v) ==
  /\ q' = LowerTo(q, k, v, MaxV)
  /\ LET f == IF ~Known(v, MaxV) THEN -1 ELSE IF xref[v] = -1 THEN 1
              ELSE IF keys[Leaf0(levels) + xref[v]] > k THEN 1 ELSE 0
     IN /\ last' = IF f = LowerFlag(q, k, v, MaxV) THEN "push" ELSE "wrong"
        /\ IF f < 1 THEN Keep ELSE IF xref[v] = -1 THEN Insert(k, v) ELSE Update(k, v)
RECURSIVE Descend(_, _)
Descend(i, m) == IF m = 0 THEN (IF keys[i] > keys[i + 1] THEN i + 1 ELSE i)
                 ELSE Descend(IF keys[i] <= keys[i + 1] THEN i * 2 + 1 ELSE (i + 1) * 2 + 1, m - 1)
Pop ==
  LET i == Descend(1, levels - 1)
      ii == i - Leaf0(levels)
      k == keys[i]
      v == vals[ii]
      lastv == vals[count - 1]
      ilast == Leaf0(levels) + count - 1
      k1 == [[keys EXCEPT ![i] = keys[ilast]] EXCEPT ![ilast] = PINF]
      v1 == [vals EXCEPT ![ii] = lastv]
      shrink == levels > MinLevels /\ count - 1 < 2 ^ (levels - 2)
      z == Resized(k1, v1, count - 1, levels, levels - 1)
  IN IF count = 0
     THEN Keep /\ UNCHANGED q /\ last' = IF PopOk(q, k, v) THEN "pop" ELSE "wrong"
     ELSE /\ last' = IF PopOk(q, k, v) THEN "pop" ELSE "wrong"
          /\ q' = IF v \in Held(q) THEN PopTo(q, v) ELSE q
          /\ xref' = [[xref EXCEPT ![lastv] = ii] EXCEPT ![v] = -1]
          /\ count' = count - 1
          /\ IF shrink THEN levels' = levels - 1 /\ keys' = z.k /\ vals' = z.v
             ELSE levels' = levels /\ vals' = v1 /\ keys' = Sift(Sift(k1, i, levels), ilast, levels)
Next == /\ n < MaxOps /\ n' = IF MaxOps > 1000 THEN 0 ELSE n + 1
        /\ (Pop \/ \E v \in Rejected \cup (0..MaxV) : \E k \in KeyValues : Push(k, v) \/ PushLower(k, v))
Spec == Init /\ [][Next]_vars
Correct == last # "wrong"
Refines == /\ count = Cardinality(Held(q))
           /\ \A v \in 0..MaxV : (xref[v] # -1) = (v \in Held(q))
           /\ \A v \in Held(q) : vals[xref[v]] = v /\ keys[Leaf0(levels) + xref[v]] = q[v]
\* every inner node holds the smaller of its pair; free leaves hold infinity
Tournament == /\ \A i \in 1..(Leaf0(levels) - 1) : keys[i] = Min2(keys[2 * i + 1], keys[2 * i + 2])
              /\ \A i \in count..(2 ^ levels - 1) : keys[Leaf0(levels) + i] = PINF
              /\ levels >= MinLevels /\ count <= 2 ^ levels
\* the stale leaves beyond count are canonicalised so that equal queues in the same shape coincide
View == <<keys, [i \in 0..(count - 1) |-> vals[i]], levels, last>>
=============================================================================
