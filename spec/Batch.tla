-------------------------------- MODULE Batch --------------------------------
(* Batch scripts as a state machine: a state binds names to rasters, every   *)
(* statement denotes a raster over the bindings so far and the files, and    *)
(* binds it to its name.  A statement is a record with dst, op and           *)
(*   ARITHMETIC        l, r (operands), sym                                  *)
(*   COMPOSITE         rs (sequence of raster operands)                      *)
(*   EXTRACTBAND       l, bands                                              *)
(*   NULLTOVALUE       l, v                                                  *)
(*   REMAP, SETNULL    l, ranges (sequence of [lo, hi, to])                  *)
(*   OPENRASTER        l                                                     *)
(*   SAVEFUNCTIONRASTER  l, v, kind, file                                        *)
(*   BAD               a line that is no statement or misses arguments       *)
(* Operands are [k |-> "ref", n] (a name, or a file of that name) and        *)
(* [k |-> "num", v].                                                         *)
EXTENDS Mosaic, SaveOpen
Symbols == {"+", "-", "*", "/", "%", "**"}
Bound(st, n) == n \in DOMAIN st.env
Resolves(st, o) == o.k = "num" \/ Bound(st, o.n) \/ o.n \in DOMAIN st.files
\* names hide files
Get(st, o) == IF Bound(st, o.n) THEN st.env[o.n] ELSE st.files[o.n]
RECURSIVE Power(_, _)
Power(x, n) == IF n = 0 THEN 1 ELSE Mul(Power(x, n - 1), x)
ArithType(sym, a, b) ==
  LET p == Promote(a, b)
  IN CASE sym = "/" -> IF IsFloat(p) THEN p ELSE "f8" [] OTHER -> p
ArithVal(sym, dt, x, y) ==
  CASE sym = "+" -> BinVal("add", dt, x, y)
    [] sym = "-" -> BinVal("sub", dt, x, y)
    [] sym = "*" -> BinVal("mul", dt, x, y)
    [] sym = "%" -> BinVal("mod", dt, x, y)
    [] x = NAN \/ y = NAN -> IF sym = "/" THEN NAN ELSE ANY
    [] ~IsNum(x) \/ ~IsNum(y) -> ANY
    [] sym = "/" -> IF y # 0 /\ x # 0 /\ Abs(x) % Abs(y) = 0 THEN Wrap(FloorDiv(x, y), dt) ELSE ANY
    [] sym = "**" -> IF y \in 0..3 /\ Abs(x) <= 100 THEN Wrap(Power(x, y), dt) ELSE ANY
Arithmetic(sym, o1, o2) ==
  LET dt == ArithType(sym, OpDt(o1), OpDt(o2))
      f(x, y) == ArithVal(sym, dt, x, y)
  IN Lift2(IF o1.k = "r" THEN o1.r ELSE o2.r, o1, o2, dt, f)

\* results of which a value or mask is not computed: whoever reads them gives unknown cells
Blur(r, q) == [r EXCEPT !.d = [i \in Cells(r) |-> IF q.d[i] = ANY \/ q.m[i] = ANY THEN ANY ELSE r.d[i]],
                        !.m = [i \in Cells(r) |-> IF q.d[i] = ANY \/ q.m[i] = ANY THEN ANY ELSE r.m[i]]]
BlurArith(r, S) == [r EXCEPT !.d = [i \in Cells(r) |-> IF \E o \in S : o.k = "r" /\ o.r.m[i] = ANY THEN ANY ELSE r.d[i]],
                             !.m = [i \in Cells(r) |-> IF \E o \in S : o.k = "r" /\ o.r.m[i] = ANY THEN ANY ELSE r.m[i]]]
BlurStack(r) == [r EXCEPT !.m = [i \in Cells(r) |-> IF r.d[i] = ANY THEN ANY ELSE r.m[i]]]

Placed(r) == r @@ [r0 |-> 0, c0 |-> 0]
Composite(rs) ==
  LET ps == [k \in DOMAIN rs |-> Placed(rs[k])]
      dt == CommonType(ps)
      s == StackOf(ps, Common(ps), dt, OutNull(ps, dt, NONE))
  IN BlurStack([s EXCEPT !.g = rs[1].g])
MapType(r, ranges) ==
  LET F == {ranges[k].to : k \in {j \in DOMAIN ranges : ranges[j].to # NONE}}
  IN IF F = {} THEN r.dt ELSE Promote(r.dt, LitType({}, F))
Remapped(r, ranges) == Blur(Remap(r, ranges, "left", MapType(r, ranges)), r)
NullsOf(r, ranges) ==
  LET q == IF Masked(r) THEN r ELSE Blur(SetNullValue(r, DefaultNull(r.dt), "any"), r)
  IN Remapped(q, [k \in DOMAIN ranges |-> [lo |-> ranges[k].lo, hi |-> ranges[k].hi, to |-> NONE]])

Op(st, o) == IF o.k = "num" THEN [k |-> "s", dt |-> "f8", v |-> o.v] ELSE [k |-> "r", r |-> Get(st, o)]
\* what is wrong with a statement
Wrong(st, s) ==
  CASE s.op = "BAD" -> TRUE
    [] s.op = "COMPOSITE" -> Len(s.rs) < 2 \/ \E k \in DOMAIN s.rs : ~Resolves(st, s.rs[k])
    [] s.op = "ARITHMETIC" -> ~Resolves(st, s.l) \/ ~Resolves(st, s.r) \/ s.sym \notin Symbols
    [] s.op = "EXTRACTBAND" -> \/ ~Resolves(st, s.l)
                               \/ Len(s.bands) = 0
                               \/ \E k \in DOMAIN s.bands : s.bands[k] < 1 \/ s.bands[k] > Get(st, s.l).nb
    [] s.op \in {"REMAP", "SETNULL"} -> ~Resolves(st, s.l) \/ \E k \in DOMAIN s.ranges : Key(s.ranges[k].lo) >= Key(s.ranges[k].hi)
    [] OTHER -> ~Resolves(st, s.l)
Denotes(st, s) ==
  CASE s.op = "ARITHMETIC" -> LET a == Op(st, s.l) b == Op(st, s.r) IN BlurArith(Arithmetic(s.sym, a, b), {a, b})
    [] s.op = "COMPOSITE" -> Composite([k \in DOMAIN s.rs |-> Get(st, s.rs[k])])
    [] s.op = "EXTRACTBAND" -> GetBands(Get(st, s.l), s.bands)
    [] s.op = "NULLTOVALUE" -> LET r == Get(st, s.l) IN Blur(SetNullValue(r, s.v, "float"), r)
    [] s.op = "REMAP" -> Remapped(Get(st, s.l), s.ranges)
    [] s.op = "SETNULL" -> NullsOf(Get(st, s.l), s.ranges)
    [] s.op = "OPENRASTER" -> Get(st, s.l)
    [] s.op = "SAVEFUNCTIONRASTER" -> LET r == Get(st, s.l) IN Blur(Reopened(r, 1, s.v, s.kind, "GTiff"), r)
Empty == [x \in {} |-> 0]
Start(files) == [env |-> Empty, files |-> files, last |-> "", ok |-> TRUE, line |-> 0]
Put(f, n, v) == (n :> v) @@ f
Step(st, s) ==
  IF ~st.ok THEN st
  ELSE IF Wrong(st, s) THEN [st EXCEPT !.ok = FALSE, !.line = s.line]
  ELSE LET r == Denotes(st, s)
       IN [st EXCEPT !.env = Put(@, s.dst, r), !.last = s.dst,
                     !.files = IF s.op = "SAVEFUNCTIONRASTER" THEN Put(@, s.file, r) ELSE @]
RECURSIVE RunFrom(_, _, _)
RunFrom(st, ss, k) == IF k > Len(ss) THEN st ELSE RunFrom(TLCEval(Step(st, ss[k])), ss, k + 1)
Run(files, ss) == RunFrom(Start(files), ss, 1)
=============================================================================
