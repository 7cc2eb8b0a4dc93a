------------------------------- MODULE Surface -------------------------------
(* Surface measures of a raster of elevations with cells rx wide and ry high *)
(* (integers), in fixed point.                                               *)
EXTENDS Neighbour

\* 4096 times the sine of k * 15 degrees
SinTab == <<0, 1060, 2048, 2896, 3547, 3956, 4096, 3956, 3547, 2896, 2048, 1060, 0, -1060, -2048, -2896, -3547, -3956, -4096, -3956, -3547, -2896, -2048, -1060>>
Sin15(k) == SinTab[(k % 24) + 1]
Cos15(k) == Sin15(k + 6)

Interior(r, i) == LET y == Y(r, i) x == X(r, i) IN y > 0 /\ y < r.h - 1 /\ x > 0 /\ x < r.w - 1
\* neighbour dy rows down and dx columns right
Z(r, i, dy, dx) == r.d[i + dy * r.w + dx]
NullNear(r, i, offs) == \E o \in offs : r.m[i + o[1] * r.w + o[2]] = 1
Nine == (-1..1) \X (-1..1)
Plus == {<<0, 0>>, <<1, 0>>, <<-1, 0>>, <<0, 1>>, <<0, -1>>}
\* 8 times the differences to the east and to the north
DX(r, i) == (Z(r, i, -1, 1) + 2 * Z(r, i, 0, 1) + Z(r, i, 1, 1)) - (Z(r, i, -1, -1) + 2 * Z(r, i, 0, -1) + Z(r, i, 1, -1))
DY(r, i) == (Z(r, i, -1, -1) + 2 * Z(r, i, -1, 0) + Z(r, i, -1, 1)) - (Z(r, i, 1, -1) + 2 * Z(r, i, 1, 0) + Z(r, i, 1, 1))

\* 256 times the gradient
Slope256(r, i, rx, ry) == LET a == DX(r, i) b == DY(r, i) IN
  ISqrt(FixDiv(a * a * ry * ry + b * b * rx * rx, 64 * rx * rx * ry * ry, 65536))
\* 64 times the curvature
Curv64(r, i, rx, ry) ==
  FixDiv(-100 * (Z(r, i, 0, -1) + Z(r, i, 0, 1) + Z(r, i, -1, 0) + Z(r, i, 1, 0) - 4 * Z(r, i, 0, 0)), rx * ry, 64)
\* is <<s, c>> (4096 times sine and cosine of a compass angle) the downslope direction
Faces(r, i, s, c) ==
  LET a == -DX(r, i)
      b == -DY(r, i)
  IN /\ Abs(s * b - c * a) <= 2 * (Abs(a) + Abs(b))
     /\ s * a + c * b > 0
\* 4096 times the northing (easting) v of a sloping cell
UnitPart(r, i, v, part) ==
  LET a == DX(r, i)
      b == DY(r, i)
      n == ISqrt((a * a + b * b) * 4096)       \* 64 times the length
      t == IF part = "north" THEN -b ELSE -a
  IN Abs((v * n) \div 64 - t * 4096) <= 60 + n \div 16
\* hillshade, azimuth and altitude in units of 15 degrees
Shade(r, i, rx, ry, az, alt) ==
  LET a == DX(r, i)
      b == DY(r, i)
      norm == ISqrt(FixDiv(64 * rx * rx * ry * ry + a * a * ry * ry + b * b * rx * rx, 64 * rx * rx * ry * ry, 65536))
      p == (a * 128) \div rx
      q == (b * 128) \div ry
      t == (p * Sin15(az) + q * Cos15(az)) \div 4096
      \* zenith angle = 90 degrees - altitude
      rhs == 255 * (Sin15(alt) \div 4 - (Cos15(alt) * t) \div 4096)
      hs == (rhs \div 4) \div norm
  IN Max2(hs, 0)
\* 64 times the area: eight triangles between half edges
Tri(a, d, res) == ISqrt((a * a + (a - d) * (a - d) + res * res) * 4096)
Area64(r, i, res) ==
  LET z == Z(r, i, 0, 0)
      D(dy, dx) == Z(r, i, dy, dx) - z
      T(ay, ax, dy, dx) == Tri(D(ay, ax), D(dy, dx), res)
  IN (res * (T(0, 1, -1, 1) + T(0, 1, 1, 1) + T(0, -1, -1, -1) + T(0, -1, 1, -1)
     + T(1, 0, 1, 1) + T(1, 0, 1, -1) + T(-1, 0, -1, 1) + T(-1, 0, -1, -1))) \div 8
\* truncated quotient and the values a float computation may give
TruncDiv(n, d) == IF n >= 0 THEN n \div d ELSE -((-n) \div d)
TpiVals(z, q) ==
  LET n == Len(q)
      num == 2 * (z * n - SumSeq(q)) + n
      v == TruncDiv(num, 2 * n)
  IN IF num % (2 * n) = 0 THEN {v - 1, v, v + 1} ELSE {v}
=============================================================================
