---------------------------- MODULE MC_SaveOpen ----------------------------
(* Sessions of saving and opening over a file system: every file is written  *)
(* once; handles are what saving and opening returned.                       *)
EXTENDS SaveOpen
CONSTANTS VALUES, TYPES, NULLS, NAMES
VARIABLES fs, last, orig
vars == <<fs, last, orig>>
Raster(dt, nv, d, m) == [dt |-> dt, nv |-> nv, nb |-> 1, h |-> 1, w |-> 2, d |-> d, m |-> m, g |-> <<>>]
Legal(r) == /\ \A i \in 1..2 : IsFloat(r.dt) \/ r.dt = "b1" \/ IsNum(r.d[i])
            /\ \A i \in 1..2 : r.m[i] = 1 => (r.nv # NONE /\ r.d[i] = r.nv)
            /\ \A i \in 1..2 : r.m[i] = 0 => r.d[i] # r.nv
            /\ r.dt = "b1" => (\A i \in 1..2 : r.d[i] \in {0, 1}) /\ r.nv \in {NONE, 1}
            /\ (r.nv = NAN => IsFloat(r.dt))
            /\ (r.nv = NONE \/ r.nv = NAN \/ r.dt = "b1" \/ IsFloat(r.dt) \/ Fits(r.nv, r.dt))
Rasters == {r \in {Raster(dt, nv, d, m) : dt \in TYPES, nv \in NULLS, d \in [1..2 -> VALUES], m \in [1..2 -> {0, 1}]} : Legal(r)}
Init == /\ fs = [x \in {} |-> 0]
        /\ orig \in Rasters
        /\ last = orig
Save(n, has, v, k) ==
  /\ n \notin DOMAIN fs
  /\ LET f == FileOf(last, has, v, k, "GTiff")
     IN fs' = fs @@ (n :> f) /\ last' = Opened(f)
  /\ orig' = orig
Open(n) == n \in DOMAIN fs /\ last' = Opened(fs[n]) /\ UNCHANGED <<fs, orig>>
Next == \/ \E n \in NAMES : Save(n, 0, 0, "int") \/ Open(n)
        \/ \E n \in NAMES, v \in {0, 9} : Save(n, 1, v, "int")
Spec == Init /\ [][Next]_vars
\* what is opened is consistent, and a fixed point of saving and opening
Consistent == DOMAIN fs # {} => \A i \in 1..2 : last.m[i] = B2I(last.nv # NONE /\ last.d[i] = last.nv)
FixedPoint == DOMAIN fs # {} => LET r == Reopened(last, 0, 0, "int", "GTiff") IN [r EXCEPT !.g = <<>>] = [last EXCEPT !.g = <<>>]
\* a valid cell that stays valid keeps its value; a null cell stays null
\* unless the file carries no null value at all
Kept == \A i \in 1..2 : /\ (last.m[i] = 0 /\ orig.m[i] = 0) => last.d[i] = orig.d[i]
                        /\ orig.m[i] = 1 => last.m[i] = 1
Again == [n \in DOMAIN fs |-> Opened(fs[n])]
FilesConsistent == \A n \in DOMAIN fs : NullConsistent(Again[n])
=============================================================================
