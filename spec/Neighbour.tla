----------------------------- MODULE Neighbour -----------------------------
(* Operations that look at the neighbours of a cell: focal statistics,       *)
(* correlation, dilation, erosion, aggregation, statistics across bands.     *)
EXTENDS RasterSem, Stats

(****************************** windows ************************************)
\* a window is [h, w, k]: its shape and its weights, row-major
RectWindow(width, height) == [h |-> width, w |-> height, k |-> [i \in 1..(width * height) |-> 1]]
\* circle of radius r cells: cells within r - 1 of the centre
InCircle(r, dy, dx) == dy * dy + dx * dx <= (r - 1) * (r - 1)
CircleWindow(r) ==
  LET n == 2 * (r - 1) + 1 IN
  [h |-> n, w |-> n, k |-> [i \in 1..(n * n) |-> B2I(InCircle(r, (i - 1) \div n - (r - 1), ((i - 1) % n) - (r - 1)))]]
AnnulusWindow(r1, r2) ==
  LET n == 2 * (r2 - 1) + 1 IN
  [h |-> n, w |-> n, k |-> [i \in 1..(n * n) |->
      LET dy == (i - 1) \div n - (r2 - 1)
          dx == ((i - 1) % n) - (r2 - 1)
      IN B2I(InCircle(r2, dy, dx) /\ ~InCircle(r1, dy, dx))]]
Window(shape) == CASE shape[1] = "rect" -> RectWindow(shape[2], shape[3])
                   [] shape[1] = "circle" -> CircleWindow(shape[2])
                   [] shape[1] = "annulus" -> AnnulusWindow(shape[2], shape[3])
\* offsets <<dy, dx, weight>> of the window's cells around the cell (towards the end for even sizes)
Offsets(win) == [i \in 1..(win.h * win.w) |->
   <<(i - 1) \div win.w - (win.h - 1) \div 2, ((i - 1) % win.w) - (win.w - 1) \div 2, win.k[i]>>]

Y(r, i) == ((i - 1) % Plane(r)) \div r.w
X(r, i) == (i - 1) % r.w
Inside(r, y, x) == y >= 0 /\ y < r.h /\ x >= 0 /\ x < r.w
Idx(r, b, y, x) == (b - 1) * Plane(r) + y * r.w + x + 1

\* the valid values under the window at cell i
Under(r, i, offs) ==
  LET b == BandOf(r, i)
      y == Y(r, i)
      x == X(r, i)
      at(o) == IF o[3] = 0 \/ ~Inside(r, y + o[1], x + o[2]) THEN NOVAL
               ELSE LET j == Idx(r, b, y + o[1], x + o[2]) IN IF r.m[j] = 1 THEN NOVAL ELSE r.d[j]
  IN Valids([k \in 1..Len(offs) |-> at(offs[k])])

\* focal statistic: values (scaled by s) and null cells
Focal(r, stat, win, ignore, s) ==
  LET offs == Offsets(win)
      q == [i \in Cells(r) |-> Under(r, i, offs)]
  IN [v |-> [i \in Cells(r) |-> IF q[i] = <<>> THEN ANY ELSE Stat(stat, q[i], s)],
      m |-> [i \in Cells(r) |-> IF ~Masked(r) THEN 0
                                ELSE IF r.m[i] = 1 /\ ~ignore THEN 1
                                ELSE IF q[i] = <<>> THEN (IF ignore THEN 1 ELSE ANY) ELSE 0]]

(***************************** correlation *********************************)
FloorMod(i, n) == i % n
Bound(mode, i, n) ==
  CASE mode = "nearest" -> Min2(Max2(i, 0), n - 1)
    [] mode = "wrap" -> FloorMod(i, n)
    [] mode = "reflect" -> LET j == FloorMod(i, 2 * n) IN IF j < n THEN j ELSE 2 * n - 1 - j
\* kernel weights and fill value are integers here
Correlate(r, win, mode, cval) ==
  LET offs == Offsets(win)
      at(b, y, x) ==
        IF Inside(r, y, x) THEN (LET j == Idx(r, b, y, x) IN IF r.m[j] = 1 THEN 0 ELSE r.d[j])
        ELSE IF mode = "constant" THEN cval
        ELSE LET j == Idx(r, b, Bound(mode, y, r.h), Bound(mode, x, r.w)) IN IF r.m[j] = 1 THEN 0 ELSE r.d[j]
  IN [i \in Cells(r) |-> SumSeq([k \in 1..Len(offs) |->
         offs[k][3] * at(BandOf(r, i), Y(r, i) + offs[k][1], X(r, i) + offs[k][2])])]
Turned(win) == [win EXCEPT !.k = [i \in 1..Len(win.k) |-> win.k[Len(win.k) + 1 - i]]]

(*********************** dilation and erosion ******************************)
\* even footprints lean towards the end when dilating and towards the start when eroding
MorphOffsets(fh, fw, op) ==
  LET top == IF op = "dilate" THEN (fh - 1) \div 2 ELSE fh \div 2
      left == IF op = "dilate" THEN (fw - 1) \div 2 ELSE fw \div 2
  IN [i \in 1..(fh * fw) |-> <<(i - 1) \div fw - top, ((i - 1) % fw) - left, 1>>]
Morph(r, op, fh, fw) ==
  LET offs == MorphOffsets(fh, fw, op)
      q == [i \in Cells(r) |-> Under(r, i, offs)]
      \* dilation expands features into nulls; erosion contracts them, also at the edge
      m == [i \in Cells(r) |-> IF ~Masked(r) THEN 0
                               ELSE IF op = "dilate" THEN B2I(q[i] = <<>>) ELSE B2I(Len(q[i]) < fh * fw)]
  IN With(r, r.dt, r.nv, [i \in Cells(r) |-> IF m[i] = 1 THEN r.nv
                             ELSE IF op = "dilate" THEN SeqMax(q[i]) ELSE SeqMin(q[i])], m)

(***************************** aggregation *********************************)
Aggregate(r, ky, kx, stat, s) ==
  LET h == r.h \div ky
      w == r.w \div kx
      n == r.nb * h * w
      blk(i) == LET b == ((i - 1) \div (h * w)) + 1
                    y == ((i - 1) % (h * w)) \div w
                    x == (i - 1) % w
                IN Valids([k \in 1..(ky * kx) |->
                     LET j == Idx(r, b, y * ky + (k - 1) \div kx, x * kx + ((k - 1) % kx))
                     IN IF r.m[j] = 1 THEN NOVAL ELSE r.d[j]])
      q == [i \in 1..n |-> blk(i)]
  IN [nb |-> r.nb, h |-> h, w |-> w,
      v |-> [i \in 1..n |-> IF q[i] = <<>> THEN ANY ELSE Stat(stat, q[i], s)],
      m |-> [i \in 1..n |-> B2I(q[i] = <<>>)]]

(*********************** statistics across bands ***************************)
Local(r, stat, s) ==
  LET P == Plane(r)
      q(i) == [b \in 1..r.nb |-> IF r.m[(b - 1) * P + i] = 1 THEN NOVAL ELSE r.d[(b - 1) * P + i]]
  IN [nb |-> 1, h |-> r.h, w |-> r.w,
      m |-> [i \in 1..P |-> B2I(Valids(q(i)) = <<>>)],
      v |-> [i \in 1..P |-> IF Valids(q(i)) = <<>> THEN ANY
                            ELSE CASE stat = "minband" -> ArgMin(q(i)) * s
                                   [] stat = "maxband" -> ArgMax(q(i)) * s
                                   [] OTHER -> Stat(stat, Valids(q(i)), s)]]
ValidSeq(r) == Valids([i \in Cells(r) |-> IF r.m[i] = 1 THEN NOVAL ELSE r.d[i]])
Reduce(r, stat, s) ==
  LET q == ValidSeq(r) IN
  CASE stat = "all" -> B2I(\A j \in 1..Len(q) : q[j] # 0) * s
    [] stat = "any" -> B2I(\E j \in 1..Len(q) : q[j] # 0) * s
    [] stat = "sum" /\ q = <<>> -> 0
    [] stat = "prod" /\ q = <<>> -> s
    [] q = <<>> -> ANY
    [] OTHER -> Stat(stat, q, s)
=============================================================================
