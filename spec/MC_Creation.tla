---------------------------- MODULE MC_Creation ----------------------------
(* All small raw sources, turned over by any sequence of flips: wrapping     *)
(* does not see how the source was laid out, and wrapping again changes      *)
(* nothing.                                                                  *)
EXTENDS Creation
CONSTANTS H, W, VALUES, NULLS
VARIABLES src, first
vars == <<src, first>>
Blocks == [1..(H * W) -> VALUES]
Init ==
  /\ \E d \in Blocks, nv \in NULLS, has \in {0, 1}, burn \in {0, 1}, m \in [1..(H * W) -> {0, 1}] :
       /\ has = 1 \/ (burn = 0 /\ m = [k \in 1..(H * W) |-> 0])
       /\ src = [xs |-> [j \in 1..W |-> 10 * j], ys |-> [i \in 1..H |-> 100 - 10 * i],
                 d |-> d, nv |-> nv, has |-> has, burn |-> burn, m |-> m]
  /\ first = Wrapped(src, 7)
FlipX == src' = [src EXCEPT !.xs = Rev(@),
                            !.d = [k \in 1..(H * W) |-> src.d[((k - 1) \div W) * W + (W - ((k - 1) % W))]],
                            !.m = [k \in 1..(H * W) |-> src.m[((k - 1) \div W) * W + (W - ((k - 1) % W))]]]
FlipY == src' = [src EXCEPT !.ys = Rev(@),
                            !.d = [k \in 1..(H * W) |-> src.d[(H - 1 - ((k - 1) \div W)) * W + ((k - 1) % W) + 1]],
                            !.m = [k \in 1..(H * W) |-> src.m[(H - 1 - ((k - 1) \div W)) * W + ((k - 1) % W) + 1]]]
Next == (FlipX \/ FlipY) /\ first' = first
Spec == Init /\ [][Next]_vars
Now == Wrapped(src, 7)
Oriented == \A i \in 1..(H - 1) : Now.ys[i] > Now.ys[i + 1]
OrientedX == \A j \in 1..(W - 1) : Now.xs[j] < Now.xs[j + 1]
LayoutFree == Now = first
Again == LET n == Now
             s == [xs |-> n.xs, ys |-> n.ys, d |-> n.d, m |-> n.m, nv |-> n.nv, has |-> 1, burn |-> src.burn]
             r == Wrapped(s, 7)
         IN n.nv # NONE => (r.d = n.d /\ r.m = n.m /\ r.nv = n.nv)
NullsAreEqual == src.has = 0 => \A k \in 1..(H * W) : (Now.m[k] = 1) <=> (Now.nv # NONE /\ Now.d[k] = Now.nv)
BurnedNulls == (src.has = 1 /\ src.burn = 1) => \A k \in 1..(H * W) : Now.m[k] = 1 => Now.d[k] = Now.nv
ValidKept == \A k \in 1..(H * W) : Now.m[k] = 0 => Now.d[k] = src.d[From(src, k)]
\* masks of templates
Templates == [nb : {1, 2}, h : {1}, w : {W}]
LikeBands ==
  \A nb \in {1, 2}, bands \in 1..3 :
    LET t == [nb |-> nb, h |-> 1, w |-> W, m |-> [k \in 1..(nb * W) |-> src.m[k]]]
        m == LikeMask(t, bands)
    IN (nb * W <= H * W) => /\ Len(m) = bands * W
                            /\ \A b \in 0..(bands - 1) : \A j \in 1..W :
                                 m[b * W + j] = (IF bands = nb THEN t.m[b * W + j] ELSE t.m[j])
=============================================================================
