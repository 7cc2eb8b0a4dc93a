---------------------------- MODULE FeatureTrace ----------------------------
(* Rasterising, clipping, zonal statistics, points.                          *)
EXTENDS Features, TraceBase
VARIABLES l, fails, acts
Fill(out) == Clause("null-fill", out.nv = NONE \/ \A i \in 1..Len(out.m) : out.m[i] = 0 \/ out.d[i] = out.nv)
             \cup Clause("no-null-value", out.nv # NONE \/ \A i \in 1..Len(out.m) : out.m[i] = 0)

\* ---- rasterize
ExpectRasterize(ev) ==
  LET out == ev.out
      t == ev.touched = 1
      n == ev.like.h * ev.like.w
      Y0(i) == (i - 1) \div ev.like.w
      X0(i) == (i - 1) % ev.like.w
      must == [i \in 1..n |-> Must(ev.f, Y0(i), X0(i), t)]
      may == [i \in 1..n |-> May(ev.f, Y0(i), X0(i), t)]
      free == [i \in 1..n |-> \E j \in must[i] \cup may[i] : ev.vals[j] = ev.null]
      cell(i) == IF ev.mask = 1
                 THEN LET c == IF must[i] # {} THEN {1} ELSE IF may[i] # {} THEN {0, 1} ELSE {0}
                          v == IF ev.invert = 1 THEN {1 - z : z \in c} ELSE c
                      IN out.d[i] \in v /\ out.m[i] = 1 - out.d[i]
                 ELSE free[i] \/ (out.d[i] \in CellVals(ev.method, ev.vals, must[i], may[i], ev.null)
                                  /\ (out.m[i] = 1) = (out.d[i] = ev.null))
  IN Clause("shape", out.nb = 1 /\ out.h = ev.like.h /\ out.w = ev.like.w)
     \cup Clause("grid", out.g = ev.like.g)
     \cup Clause("dtype", out.dt = ev.dt)
     \cup Clause("null-value", out.nv = IF ev.mask = 1 THEN 0 ELSE ev.null)
     \cup (IF Len(out.d) # n THEN {"size"} ELSE
           Clause("covered", \A i \in 1..n : (must[i] = {} /\ may[i] = {}) \/ cell(i))
           \cup Clause("uncovered", \A i \in 1..n : must[i] # {} \/ may[i] # {} \/ cell(i)))

\* ---- clip
ClipNv(r) == IF Masked(r) THEN r.nv ELSE DefaultNull(r.dt)
\* rows and columns the result must have (before it is widened to two)
Wanted(ev) ==
  LET b == RectCells(IF ev.bounds = <<>> THEN BoundsOf(ev.f) ELSE ev.bounds)
  IN [r0 |-> Max2(b.r0, 0), r1 |-> Min2(b.r1, ev.r.h - 1), c0 |-> Max2(b.c0, 0), c1 |-> Min2(b.c1, ev.r.w - 1)]
Nothing(w) == w.r1 < w.r0 \/ w.c1 < w.c0
\* a box of one row or column is widened on both sides
Widened(lo, hi, o, n, size) == o <= lo /\ o + n - 1 >= hi /\ o >= 0 /\ o + n <= size /\ o >= lo - 2 /\ o + n - 1 <= hi + 2
ExpectClip(ev) ==
  LET r == ev.r
      out == ev.out
      w == Wanted(ev)
      thin == w.r1 = w.r0 \/ w.c1 = w.c0
      nv == ClipNv(r)
      src(i) == LET p == (i - 1) % (out.h * out.w) b == (i - 1) \div (out.h * out.w)
                IN b * r.h * r.w + (ev.ro + p \div out.w) * r.w + ev.co + (p % out.w) + 1
      cov(i) == LET p == (i - 1) % (out.h * out.w)
                    cs == {Cover(ev.f[j], ev.ro + p \div out.w, ev.co + (p % out.w), TRUE) : j \in 1..Len(ev.f)}
                IN SetMax({0} \cup cs)
      keep(i) == IF ev.op = "envelope" THEN 2 ELSE IF ev.inv = 1 THEN 2 - cov(i) ELSE cov(i)
      n == out.nb * out.h * out.w
      kept(i) == out.m[i] = r.m[src(i)] /\ (out.m[i] = 1 \/ out.d[i] = r.d[src(i)])
  IN Clause("shape", out.nb = r.nb /\ Len(out.d) = n /\ Len(out.m) = n)
     \cup Clause("extent", IF ev.op = "mask" THEN ev.ro = 0 /\ ev.co = 0 /\ out.h = r.h /\ out.w = r.w
                           ELSE IF thin THEN Widened(w.r0, w.r1, ev.ro, out.h, r.h) /\ Widened(w.c0, w.c1, ev.co, out.w, r.w)
                           ELSE ev.ro = w.r0 /\ ev.co = w.c0 /\ out.h = w.r1 - w.r0 + 1 /\ out.w = w.c1 - w.c0 + 1)
     \cup Clause("dtype", out.dt = r.dt) \cup Clause("null-value", out.nv = nv) \cup Clause("crs", ev.crs = 1)
     \cup Fill(out)
     \cup (IF ev.ro < 0 \/ ev.co < 0 \/ ev.ro + out.h > r.h \/ ev.co + out.w > r.w THEN {"outside"} ELSE
           Clause("kept-cells", \A i \in 1..n : keep(i) # 2 \/ kept(i))
           \cup Clause("removed-cells", \A i \in 1..n : keep(i) # 0 \/ out.m[i] = 1)
           \cup Clause("border-cells", \A i \in 1..n : keep(i) # 1 \/ out.m[i] = 1 \/ kept(i)))
ClipRaises(ev) == ev.op # "mask" /\ (Nothing(Wanted(ev)) \/ Wanted(ev).r0 = Wanted(ev).r1 \/ Wanted(ev).c0 = Wanted(ev).c1)

\* ---- zonal statistics
ZStat(stat, q, s) ==
  IF q = <<>> THEN (CASE stat \in {"count", "sum", "nunique"} -> 0 [] stat = "prod" -> s [] OTHER -> NAN)
  ELSE CASE stat = "nunique" -> Cardinality(Distinct(q)) * s
         [] stat \in {"var", "std"} /\ Len(q) = 1 -> NAN
         \* sample variance
         [] stat = "var" -> FixDiv(VarNum(q), Len(q) * (Len(q) - 1), s)
         [] stat = "std" -> ISqrt(FixDiv(VarNum(q), Len(q) * (Len(q) - 1), s * s))
         [] OTHER -> Stat(stat, q, s)
ZNear(stat, exp, obs) == IF exp = NAN \/ obs = NAN THEN exp = obs ELSE
                         IF stat \in {"nunique"} THEN exp = obs ELSE Near(stat, exp, obs)
\* cells (of the plane) of each zone: zone raster or features
Flat(r) == 1..(r.h * r.w)
ZoneOf(ev, i) ==
  IF ev.kind = "raster" THEN (IF ev.z.m[i] = 1 THEN NONE ELSE ev.z.d[i])
  ELSE LET S == Must(ev.f, (i - 1) \div ev.r.w, (i - 1) % ev.r.w, TRUE) IN IF S = {} THEN NONE ELSE ev.vals[SetMax(S)]
BandVals(ev, cells, b) ==
  LET seq == SetToSortSeq(cells, <)
      off == (b - 1) * ev.r.h * ev.r.w
      good == SelectSeq(seq, LAMBDA i : ev.r.m[off + i] = 0)
  IN [k \in 1..Len(good) |-> ev.r.d[off + good[k]]]
\* the expected rows: <<zone, cells>>
ZRows(ev) ==
  IF ev.overlap = 1
  THEN {<<ev.vals[j], {i \in Flat(ev.r) : Cover(ev.f[j], (i - 1) \div ev.r.w, (i - 1) % ev.r.w, TRUE) = 2}, j>> : j \in 1..Len(ev.f)}
  ELSE LET zs == {ZoneOf(ev, i) : i \in Flat(ev.r)} \ {NONE}
       IN {<<z, {i \in Flat(ev.r) : ZoneOf(ev, i) = z}, 0>> : z \in zs}
ColName(b, s) == "band_" \o ToString(b) \o "/" \o s
ZVal(ev, cells, b, k) == LET s == ev.stats[k] IN
  IF s = "size" THEN Cardinality(cells) ELSE ZStat(s, BandVals(ev, cells, b), ev.sc[k])
RowOkWide(ev, row, zr) ==
  /\ row.zone = zr[1]
  /\ \A b \in 1..ev.r.nb : \A k \in 1..Len(ev.stats) :
       ZNear(ev.stats[k], ZVal(ev, zr[2], b, k), row.v[(b - 1) * Len(ev.stats) + k])
RowOkLong(ev, row, zr) ==
  /\ row.zone = zr[1]
  /\ \A k \in 1..Len(ev.stats) : ZNear(ev.stats[k], ZVal(ev, zr[2], row.band, k), row.v[k])
ExpectZonal(ev) ==
  LET rows == {z \in ZRows(ev) : z[2] # {}}
      ns == Len(ev.stats)
      cols == IF ev.wide = 1 THEN [j \in 1..(ev.r.nb * ns) |-> ColName(((j - 1) \div ns) + 1, ev.stats[((j - 1) % ns) + 1])]
              ELSE <<"zone", "band">> \o ev.stats
      bands == IF ev.wide = 1 THEN {0} ELSE 1..ev.r.nb
      O == ev.rows
  IN Clause("columns", ev.cols = cols)
     \cup (IF ev.cols # cols THEN {} ELSE
          Clause("row-count", Len(O) = Cardinality(rows) * Cardinality(bands))
          \cup Clause("rows", \A z \in rows : \A b \in bands :
                 Cardinality({k \in 1..Len(O) : O[k].zone = z[1] /\ (b = 0 \/ O[k].band = b)})
                   = Cardinality({y \in rows : y[1] = z[1]}))
          \cup Clause("values", \A z \in rows : \A b \in bands :
                 \E k \in 1..Len(O) : (b = 0 \/ O[k].band = b) /\ (IF b = 0 THEN RowOkWide(ev, O[k], z) ELSE RowOkLong(ev, O[k], z))))

\* cells whose zone depends on rounding
Unclear(ev) == ev.kind = "vector" /\ \E i \in Flat(ev.r) : May(ev.f, (i - 1) \div ev.r.w, (i - 1) % ev.r.w, TRUE) # {}

\* ---- points
PtCell(ev, p) == LET c == p[1] \div U r == p[2] \div U
                 IN IF r < 0 \/ c < 0 \/ r >= ev.r.h \/ c >= ev.r.w THEN 0 ELSE r * ev.r.w + c + 1
PtVal(ev, p, b) == LET i == PtCell(ev, p) j == (b - 1) * ev.r.h * ev.r.w + i
                   IN IF i = 0 THEN NAN ELSE IF ev.r.m[j] = 1 THEN NAN ELSE ev.r.d[j]
ExpectExtract(ev) ==
  LET n == Len(ev.pts)
      nb == ev.r.nb
  IN IF ev.axis = 0
     THEN Clause("columns", ev.cols = <<"band", ev.name>>)
          \cup Clause("rows", Len(ev.rows) = n * nb)
          \cup (IF Len(ev.rows) # n * nb \/ Len(ev.cols) # 2 THEN {} ELSE
               Clause("band-column", \A k \in 1..(n * nb) : ev.rows[k][1] = ((k - 1) \div n) + 1)
               \cup Clause("values", \A k \in 1..(n * nb) : ev.rows[k][2] = PtVal(ev, ev.pts[((k - 1) % n) + 1], ((k - 1) \div n) + 1)))
     ELSE Clause("columns", ev.cols = [b \in 1..nb |-> ev.name \o "_" \o ToString(b)])
          \cup Clause("rows", Len(ev.rows) = n)
          \cup (IF Len(ev.rows) # n \/ Len(ev.cols) # nb THEN {} ELSE
               Clause("values", \A k \in 1..n : \A b \in 1..nb : ev.rows[k][b] = PtVal(ev, ev.pts[k], b)))
\* rows <<value, band, row, col, x, y, index>>, x and y in units from the corner
ExpectToPoints(ev) ==
  LET r == ev.r
      at(row) == (row[2] - 1) * r.h * r.w + row[3] * r.w + row[4] + 1
      ok(row) == row[2] \in 1..r.nb /\ row[3] \in 0..(r.h - 1) /\ row[4] \in 0..(r.w - 1)
      good == {i \in Cells(r) : r.m[i] = 0}
  IN Clause("columns", ev.cols = <<"value", "band", "row", "col", "geometry">>)
     \cup Clause("positions", \A k \in 1..Len(ev.rows) : ok(ev.rows[k]))
     \cup (IF \E k \in 1..Len(ev.rows) : ~ok(ev.rows[k]) THEN {} ELSE
          Clause("each-cell-once", Len(ev.rows) = Cardinality(good) /\ {at(ev.rows[k]) : k \in 1..Len(ev.rows)} = good)
          \cup Clause("values", \A k \in 1..Len(ev.rows) : ev.rows[k][1] = r.d[at(ev.rows[k])])
          \cup Clause("centres", \A k \in 1..Len(ev.rows) :
                  ev.rows[k][5] = U * ev.rows[k][4] + U \div 2 /\ ev.rows[k][6] = U * ev.rows[k][3] + U \div 2)
          \cup Clause("index", Cardinality({ev.rows[k][7] : k \in 1..Len(ev.rows)}) = Len(ev.rows))
          \cup Clause("dtype", ev.dt = r.dt) \cup Clause("crs", ev.crs = 1))
ExpectBack(ev) ==
  LET r == ev.r out == ev.out IN
  Clause("grid", out.g = r.g) \cup
  (IF Len(out.d) # Len(r.d) THEN {"size"} ELSE
   Clause("null-cells", out.m = r.m) \cup Clause("values", \A i \in Cells(r) : r.m[i] = 1 \/ out.d[i] = r.d[i]))
Judge(ev) ==
  IF ev.exc # "" THEN Clause("raised", ev.op \in {"clip", "erase", "envelope"} /\ ClipRaises(ev))
  ELSE CASE ev.op = "rasterize" -> ExpectRasterize(ev)
         [] ev.op \in {"clip", "erase", "mask", "envelope"} ->
              IF ev.op # "mask" /\ Nothing(Wanted(ev)) THEN {"not-raised"} ELSE ExpectClip(ev)
         [] ev.op = "zonal" -> IF Unclear(ev) THEN {} ELSE ExpectZonal(ev)
         [] ev.op = "extract" -> ExpectExtract(ev)
         [] ev.op = "topoints" -> ExpectToPoints(ev)
         [] ev.op = "back" -> ExpectBack(ev)
Init == l = 1 /\ fails = <<>> /\ acts = [x \in {} |-> 0]
Next ==
  \/ /\ l <= Len(Trace)
     /\ LET ev == Trace[l]
            bad == Judge(ev)
        IN /\ fails' = IF bad = {} THEN fails ELSE Append(fails, [at |-> l, clauses |-> bad])
           /\ acts' = Count(acts, IF ev.op = "zonal" /\ ev.exc = "" THEN (IF Unclear(ev) THEN "unclear" ELSE ev.op) ELSE ev.op)
     /\ l' = l + 1
  \/ /\ l = Len(Trace) + 1
     /\ WriteVerdict(l - 1, fails, acts)
     /\ l' = l + 1
     /\ UNCHANGED <<fails, acts>>
Spec == Init /\ [][Next]_<<l, fails, acts>>
=============================================================================
