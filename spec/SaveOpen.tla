------------------------------ MODULE SaveOpen ------------------------------
(* Raster files.  FileOf is what saving a raster puts into the file, Opened  *)
(* the raster the file denotes.                                              *)
EXTENDS RasterSem
\* formats whose 64-bit integers are native; their null value is a double
Native == {"GTiff", "COG"}
FileType(dt, nv, driver) ==
  CASE dt = "b1" -> "u1"
    [] dt = "i8" -> IF driver \in Native /\ nv # NV_I8 THEN "i8" ELSE "f8"
    [] dt = "u8" -> IF driver \in Native /\ nv = NV_U8 THEN "f8" ELSE "u8"
    [] OTHER -> dt
\* has = 1: null value v of kind k replaces that of the raster
FileOf(r, has, v, k, driver) ==
  LET r1 == IF has = 1 THEN SetNullValue(r, v, k) ELSE r
      r2 == IF r1.dt = "b1" /\ Masked(r1) THEN SetNullValue(AsType(r1, "u1"), 255, "int") ELSE r1
      dt == FileType(r2.dt, r2.nv, driver)
  IN With(r2, dt, r2.nv, r2.d, Zeros(N(r2)))
Opened(f) ==
  LET nv == IF f.nv = NONE /\ IsFloat(f.dt) THEN NAN ELSE f.nv
  IN With(f, f.dt, nv, f.d, [i \in Cells(f) |-> B2I(nv # NONE /\ f.d[i] = nv)])
Reopened(r, has, v, k, driver) == Opened(FileOf(r, has, v, k, driver))

\* Sums of the chunk sizes before chunk k
RECURSIVE Before(_, _)
Before(ch, k) == IF k <= 1 THEN 0 ELSE ch[k - 1] + Before(ch, k - 1)
\* rows r0.. and columns c0.. of a raster
Window(r, b0, nb, r0, h, c0, w) ==
  LET src(i) == LET p == h * w
                    b == (i - 1) \div p
                    y == ((i - 1) % p) \div w
                    x == (i - 1) % w
                IN (b0 + b) * r.h * r.w + (r0 + y) * r.w + c0 + x + 1
      n == nb * h * w
  IN [r EXCEPT !.nb = nb, !.h = h, !.w = w, !.d = [i \in 1..n |-> r.d[src(i)]], !.m = [i \in 1..n |-> r.m[src(i)]]]
\* the tile of row i and column j of the chunks (band 0: all bands)
Tile(r, ych, xch, b, i, j) ==
  Window(r, IF b = 0 THEN 0 ELSE b - 1, IF b = 0 THEN r.nb ELSE 1, Before(ych, i), ych[i], Before(xch, j), xch[j])
=============================================================================
