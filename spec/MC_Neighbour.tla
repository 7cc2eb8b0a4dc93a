---------------------------- MODULE MC_Neighbour ----------------------------
(* Neighbourhood operations computed chunk by chunk: every chunk is given    *)
(* with a margin cut from its surroundings (empty outside the raster),       *)
(* processed by itself and trimmed.  In whatever order and cut, the cells    *)
(* assembled are those of the declarative definitions.                       *)
EXTENDS Neighbour
CONSTANTS H, W, Values, Shapes, Margins
VARIABLES r, cut, todo, out, shape
vars == <<r, cut, todo, out, shape>>
ShapesDef == {<<"rect", 2, 1>>, <<"rect", 3, 2>>, <<"circle", 2>>, <<"annulus", 1, 2>>}
NULL == 9
MkRas(d) == [dt |-> "u1", nv |-> NULL, nb |-> 1, h |-> H, w |-> W, d |-> d, g |-> <<>>,
          m |-> [i \in 1..(H * W) |-> B2I(d[i] = NULL)]]
\* chunks of the cut <<rows above, columns left>>: sets of cells <<y0, y1, x0, x1>>
Chunks(c) == {q \in {<<0, c[1], 0, c[2]>>, <<0, c[1], c[2], W>>, <<c[1], H, 0, c[2]>>, <<c[1], H, c[2], W>>} :
                q[1] < q[2] /\ q[3] < q[4]}
Margin(win) == <<win.h \div 2, win.w \div 2>>
\* the chunk with its margins, a raster by itself: null outside the raster
Block(q, mg) ==
  LET bh == q[2] - q[1] + 2 * mg[1]
      bw == q[4] - q[3] + 2 * mg[2]
      cell(i) == LET y == q[1] - mg[1] + (i - 1) \div bw
                     x == q[3] - mg[2] + ((i - 1) % bw)
                 IN IF Inside(r, y, x) THEN r.d[y * W + x + 1] ELSE NULL
      d == [i \in 1..(bh * bw) |-> cell(i)]
  IN [dt |-> "u1", nv |-> NULL, nb |-> 1, h |-> bh, w |-> bw, d |-> d, g |-> <<>>,
      m |-> [i \in 1..(bh * bw) |-> B2I(d[i] = NULL)]]
Cell(v, m) == IF m = 1 THEN NULL ELSE v
Ops == {"sum", "max", "dilate", "erode", "corr"}
Whole(op, x, win) ==
  CASE op \in {"sum", "max"} -> LET f == Focal(x, op, win, FALSE, 1) IN [i \in Cells(x) |-> Cell(f.v[i], f.m[i])]
    [] op \in {"dilate", "erode"} -> LET f == Morph(x, op, win.h, win.w) IN [i \in Cells(x) |-> Cell(f.d[i], f.m[i])]
    [] op = "corr" -> LET f == Correlate(x, win, "constant", 0) IN [i \in Cells(x) |-> Cell(f[i], x.m[i])]
\* margins must reach as far as the window
Init == /\ r \in {MkRas(d) : d \in [1..(H * W) -> Values \cup {NULL}]}
        /\ cut \in (0..H) \X (0..W)
        /\ shape \in Shapes
        /\ todo = Chunks(cut)
        /\ out = [op \in Ops |-> [i \in 1..(H * W) |-> -1]]
Do == \E q \in todo :
        LET win == Window(shape)
            mg == <<Margin(win)[1] + Margins, Margin(win)[2] + Margins>>
            b == Block(q, mg)
            res == [op \in Ops |-> Whole(op, b, win)]
        IN /\ todo' = todo \ {q}
           /\ out' = [op \in Ops |-> [i \in 1..(H * W) |->
                 LET y == (i - 1) \div W
                     x == (i - 1) % W
                 IN IF y >= q[1] /\ y < q[2] /\ x >= q[3] /\ x < q[4]
                    THEN res[op][(y - q[1] + mg[1]) * b.w + (x - q[3] + mg[2]) + 1] ELSE out[op][i]]]
           /\ UNCHANGED <<r, cut, shape>>
Spec == Init /\ [][Do]_vars
Assembled == todo = {} => \A op \in Ops : LET w == Whole(op, r, Window(shape)) IN
                              \A i \in 1..(H * W) : out[op][i] = w[i] \/ w[i] = ANY
\* facts about the definitions
Laws == LET win == Window(shape)
            un == RectWindow(1, 1)
            fm == Focal(r, "max", win, FALSE, 1)
            fn == Focal(r, "min", win, FALSE, 1)
            dl == Morph(r, "dilate", win.h, win.w)
            er == Morph(r, "erode", win.h, win.w)
        IN todo = Chunks(cut) =>
           /\ Correlate(r, un, "reflect", 5) = [i \in Cells(r) |-> IF r.m[i] = 1 THEN 0 ELSE r.d[i]]
           /\ Turned(Turned(win)) = win
           /\ \A i \in Cells(r) : r.m[i] = 0 /\ win.k[((win.h - 1) \div 2) * win.w + (win.w - 1) \div 2 + 1] = 1
                 => fm.v[i] >= r.d[i] /\ fn.v[i] <= r.d[i]
           /\ \A i \in Cells(r) : er.m[i] = 0 => r.m[i] = 0 /\ er.d[i] <= r.d[i]
           /\ \A i \in Cells(r) : r.m[i] = 0 => dl.m[i] = 0 /\ dl.d[i] >= r.d[i]
           /\ Local(r, "sum", 1).m = r.m
=============================================================================
