---------------------------- MODULE MC_BlockMap ----------------------------
(* A function of the cells around each cell, mapped over the blocks of a     *)
(* raster in any order: the blocks never disturb each other, every cell is   *)
(* given exactly once, and the result is the one of the undivided raster,    *)
(* whatever the chunks.                                                      *)
EXTENDS BlockMap
CONSTANTS HMax, WMax, DMax
VARIABLES r, chunks, mp, todo, out
vars == <<r, chunks, mp, todo, out>>
RECURSIVE Compositions(_)
Compositions(n) == IF n = 0 THEN {<<>>} ELSE UNION {{<<k>> \o s : s \in Compositions(n - k)} : k \in 1..n}
Bnds == {"none", "null", "const", "reflect", "nearest", "periodic"}
Raster(h, w, nv) == [dt |-> "i2", nv |-> nv, nb |-> 1, h |-> h, w |-> w, g |-> <<>>,
                     d |-> [i \in 1..(h * w) |-> i * i + 3], m |-> [i \in 1..(h * w) |-> B2I(nv # NONE /\ i * i + 3 = nv)]]
Even(dep) == dep[1] = dep[2] /\ dep[3] = dep[4]
Init ==
  /\ \E h \in 1..HMax, w \in 1..WMax, nv \in {NONE, 7, 500}, bnd \in Bnds, t \in 0..DMax, d \in 0..DMax, a \in 0..DMax, b \in 0..DMax :
       /\ mp = [bnd |-> bnd, bv |-> 7, dep |-> <<t, d, a, b>>]
       /\ (bnd = "none" \/ Even(mp.dep))
       /\ r = Raster(h, w, nv)
       /\ CanOverlap(r, mp)
  /\ chunks \in {<<<<1>>, y, x>> : y \in {s \in Compositions(r.h) : \A k \in DOMAIN s : s[k] >= Max2(mp.dep[1], mp.dep[2])},
                                   x \in {s \in Compositions(r.w) : \A k \in DOMAIN s : s[k] >= Max2(mp.dep[3], mp.dep[4])}}
  /\ todo = Locs(chunks)
  /\ out = [i \in 1..(r.h * r.w) |-> <<>>]

\* sum of the cells shown around a cell (and how many of them are null) in a window
AroundIn(g, d, m, i, j) ==
  LET near == {q \in ((i - mp.dep[1])..(i + mp.dep[2])) \X ((j - mp.dep[3])..(j + mp.dep[4])) : q[1] >= g.r0 /\ q[1] < g.r1 /\ q[2] >= g.c0 /\ q[2] < g.c1}
      val(q) == d[Within(g, 0, 0, q[1], q[2])] * (1 + (q[1] - i) + 2 * (q[2] - j))
      nul(q) == m[Within(g, 0, 0, q[1], q[2])]
  IN <<MapThenSumSet(val, near), MapThenSumSet(nul, near)>>
Do(loc) ==
  LET b == Block(chunks, loc)
      g == Grown(r, b, mp)
      d == View(r, g, mp)
      m == MaskView(r, g, mp)
      inb(q) == LET i == (q - 1) \div r.w
                    j == (q - 1) % r.w
                IN i >= b.r0 /\ i < b.r1 /\ j >= b.c0 /\ j < b.c1
  IN /\ loc \in todo
     /\ todo' = todo \ {loc}
     /\ out' = [q \in DOMAIN out |-> IF inb(q) THEN Append(out[q], AroundIn(g, d, m, (q - 1) \div r.w, (q - 1) % r.w)) ELSE out[q]]
     /\ UNCHANGED <<r, chunks, mp>>
Next == \E loc \in todo : Do(loc)
Spec == Init /\ [][Next]_vars

\* the same for the undivided raster, said without blocks
Direct(q) ==
  LET i == (q - 1) \div r.w
      j == (q - 1) % r.w
      near == ((i - mp.dep[1])..(i + mp.dep[2])) \X ((j - mp.dep[3])..(j + mp.dep[4]))
      ok(c) == LET y == Src(c[1], r.h, mp.bnd)
                   x == Src(c[2], r.w, mp.bnd)
               IN y # Fill /\ x # Fill
      use == IF mp.bnd = "none" THEN {c \in near : ok(c)} ELSE near
      weight(c) == 1 + (c[1] - i) + 2 * (c[2] - j)
      val(c) == weight(c) * IF ok(c) THEN r.d[At(r, 0, Src(c[1], r.h, mp.bnd), Src(c[2], r.w, mp.bnd))] ELSE FillValue(r, mp)
      nul(c) == IF ok(c) THEN r.m[At(r, 0, Src(c[1], r.h, mp.bnd), Src(c[2], r.w, mp.bnd))] ELSE FillMask(r, mp)
  IN <<MapThenSumSet(val, use), MapThenSumSet(nul, use)>>
Once == \A q \in DOMAIN out : Len(out[q]) <= 1
Whole == todo = {} => \A q \in DOMAIN out : Len(out[q]) = 1
Same == \A q \in DOMAIN out : out[q] = <<>> \/ out[q][1] = Direct(q)
\* what lies outside is shown from within, filled, or not at all
Inside == \A i \in (0 - r.h)..(2 * r.h - 1) : LET s == Src(i, r.h, mp.bnd) IN s = Fill \/ s \in 0..(r.h - 1)
Nulls == mp.bnd # "none" => \A loc \in Locs(chunks) :
           LET g == Grown(r, Block(chunks, loc), mp)
               d == View(r, g, mp)
               m == MaskView(r, g, mp)
           IN \A q \in DOMAIN d : (r.nv # NONE => (m[q] = 1 <=> d[q] = r.nv))
=============================================================================
