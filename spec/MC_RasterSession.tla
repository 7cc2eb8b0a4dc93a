-------------------------- MODULE MC_RasterSession --------------------------
(* Design model of a session: every short program over two small rasters.    *)
(* Checked exhaustively (MC_RasterSession.cfg); in simulation it also emits  *)
(* its behaviours as programs to be replayed in the library.                 *)
EXTENDS RasterSession
CONSTANTS MaxCalls, Emit, DTs
VARIABLES hist,      \* the program so far
          done
vars == <<env, hist, done>>

Vals(dt) == CASE dt = "b1" -> {0, 1} [] dt = "u1" -> (IF Emit THEN {0, 2, 255} ELSE {2, 255}) [] dt = "i1" -> {-128, -1, 2}
              [] dt = "i2" -> {-7, 0, 300} [] dt = "f4" -> {-1, 2, NAN} [] dt = "u2" -> {0, 255, 65535}
NVs(dt) == CASE dt = "b1" -> {1} [] dt = "u1" -> {0, 255} [] dt = "i1" -> {-128, 2}
              [] dt = "i2" -> {0, -32768} [] dt = "f4" -> {NAN, -1} [] dt = "u2" -> {0}

MkRaster(dt, nv, d, m) ==
  [dt |-> dt, nv |-> nv, nb |-> 2, h |-> 1, w |-> 1,
   d |-> [i \in 1..2 |-> IF m[i] = 1 THEN nv ELSE d[i]],
   m |-> m, g |-> <<0>>]
Rasters ==
  UNION { LET D == [1..2 -> Vals(dt)] IN
          { MkRaster(dt, NONE, d, <<0, 0>>) : d \in D }
          \cup UNION { { MkRaster(dt, nv, d, m) : d \in {x \in D : nv # NAN \/ \A i \in 1..2 : x[i] # NAN},
                         m \in {<<0, 0>>, <<0, 1>>, <<1, 1>>} } : nv \in NVs(dt) } : dt \in DTs }

H(k) == [k |-> "h", h |-> k]
S(dt, v) == [k |-> "s", dt |-> dt, v |-> v, np |-> IF dt \in {"i8", "f8"} THEN 0 ELSE 1]
Hs == 1..Len(env)
Scalars == {S("i8", 2), S("i8", -1), S("f4", 2)}
BinOps == IF Emit THEN {"add", "sub", "mul", "floordiv", "mod", "eq", "ne", "lt", "ge", "and", "or", "xor", "land", "lor", "minimum", "maximum", "lshift"}
          ELSE {"add", "lt", "and"}
Calls ==
  [op : {"bin"}, f : BinOps, a : {H(k) : k \in Hs}, b : {H(k) : k \in Hs} \cup Scalars, inplace : {0}]
  \cup [op : {"un"}, f : {"neg", "invert", "abs", "lnot"}, h : Hs]
  \cup {[op |-> "setnv", h |-> k, v |-> v, t |-> "int"] : k \in Hs, v \in {NONE, 0, 2, 255, -1}}
  \cup {[op |-> "setnv", h |-> k, v |-> NAN, t |-> "float"] : k \in {j \in Hs : env[j].dt # "b1"}}
  \cup {[op |-> "setnull", h |-> k, q |-> q] : k \in Hs, q \in {j \in Hs : env[j].dt \in {"b1", "u1", "i1"}}}
  \cup [op : {"nullmask"}, h : Hs]
  \cup {[op |-> "same", how |-> how, h |-> k] : k \in Hs, how \in {"copy", "burn", "load", "wrap"}}
  \cup [op : {"astype"}, h : Hs, dt : IF Emit THEN {"u1", "i1", "i2", "f4", "f8", "b1"} ELSE {"u1", "f4"}]
  \cup [op : {"bands"}, h : Hs, bands : {<<1>>, <<2, 1>>, <<2, 2>>, <<3>>}]
  \cup {[op |-> "where", h |-> k, a |-> H(j), b |-> o] :
          k \in {z \in Hs : env[z].dt \in {"b1", "u1", "i1", "i2"} /\ env[z].nb = 2},
          j \in {z \in Hs : env[z].nb = 2}, o \in {H(z) : z \in {y \in Hs : env[y].nb = 2}} \cup {S("i8", 2), [k |-> "none"]}}
  \cup {[op |-> "remap", h |-> k, inc |-> "left", rs |-> rs] : k \in {j \in Hs : env[j].dt # "b1"},
          rs \in {<<[lo |-> 0, hi |-> 2, to |-> 9, t |-> "int"]>>,
                  <<[lo |-> -1, hi |-> 3, to |-> NONE, t |-> "int"], [lo |-> 2, hi |-> 9, to |-> 5, t |-> "int"]>>}}
  \cup {[op |-> "reclass", h |-> k, un |-> u, mp |-> mp] : k \in {j \in Hs : env[j].dt \notin {"b1", "f2"}}, u \in {0, 1},
          mp \in {<<[from |-> 2, to |-> 7, t |-> "int"]>>,
                  <<[from |-> 0, to |-> NONE, t |-> "int"], [from |-> 2, to |-> 0, t |-> "int"]>>}}
InPlaceCalls == [op : {"bin"}, f : {"add", "mul"}, a : {H(k) : k \in Hs}, b : {H(k) : k \in Hs} \cup Scalars, inplace : {1}]

SameShape(ev) == IF ev.op # "bin" THEN TRUE ELSE IF ev.b.k = "s" THEN TRUE ELSE env[ev.a.h].nb = env[ev.b.h].nb
SameNull(ev) == IF ev.op # "setnull" THEN TRUE ELSE env[ev.q].nb \in {1, env[ev.h].nb}
\* calls whose result is known cell by cell, to keep the model closed
Closed(ev) == \A i \in 1..Len(Apply(env, ev).d) : Apply(env, ev).d[i] # ANY /\ Apply(env, ev).m[i] # ANY
WhereOk(ev) == IF ev.op # "where" THEN TRUE ELSE Apply(env, ev).dt # "?"
OK(ev) == SameShape(ev) /\ SameNull(ev)

NewCall(r) == [op |-> "new", r |-> r]
Init == \E a \in Rasters, b \in Rasters :
          env = <<a, b>> /\ hist = <<NewCall(a), NewCall(b)>> /\ done = FALSE
Ops == {"bin", "un", "setnv", "setnull", "nullmask", "same", "astype", "bands", "where", "remap", "reclass", "inplace"}
Step(op) ==
  IF op = "inplace"
  THEN \E ev \in InPlaceCalls :
          OK(ev) /\ ~Raises(env, ev) /\ Closed(ev) /\ InPlace(ev) /\ hist' = Append(hist, ev)
  ELSE \E ev \in {c \in Calls : c.op = op} :
          /\ OK(ev)
          /\ IF Raises(env, ev) THEN Fail(ev) /\ hist' = Append(hist, ev)
             ELSE WhereOk(ev) /\ Closed(ev) /\ Call(ev) /\ hist' = Append(hist, ev)
Next ==
  \/ /\ Len(hist) < MaxCalls + 2
     /\ \E op \in (IF Emit THEN {RandomElement(Ops)} ELSE Ops) : Step(op)
     /\ UNCHANGED done
  \/ /\ Emit /\ ~done /\ Len(hist) = MaxCalls + 2
     /\ done' = TRUE /\ UNCHANGED <<env, hist>>
Spec == Init /\ [][Next]_vars

(* laws of the semantics, checked in every reachable state *)
NullsPropagate ==
  \A j, k \in Hs : (env[j].nb = env[k].nb /\ ~BinError("add", env[j].dt, env[k].dt)) =>
     LET r == Binary("add", env[j], [k |-> "r", r |-> env[j]], [k |-> "r", r |-> env[k]])
     IN /\ \A i \in Cells(r) : r.m[i] = Max2(env[j].m[i], env[k].m[i])
        /\ (r.nv = NONE) = (env[j].nv = NONE /\ env[k].nv = NONE)
KeepsNulls ==
  \A k \in Hs, v \in {0, 2, 255, -1} :
     LET r == SetNullValue(env[k], v, "int")
     IN /\ \A i \in Cells(r) : env[k].m[i] = 1 => r.m[i] = 1
        /\ \A i \in Cells(r) : r.m[i] = 1 => (env[k].m[i] = 1 \/ r.d[i] = v)
        /\ NullConsistent(r)
SetNullIdempotent ==
  \A k \in Hs : \A q \in {j \in Hs : env[j].dt \in {"b1", "u1"} /\ env[j].nb = env[k].nb} :
     LET r == SetNull(env[k], env[q]) IN SetNull(r, env[q]) = r /\ NullConsistent(r)
RoundTripMask == \A k \in Hs : env[k].nv # NONE => ToNullMask(env[k]).d = env[k].m

\* emission of complete programs (simulation only)
EmitDone ==
  done =>
     Serialize(ToJson(hist) \o "\n", IOEnv.VT_EMIT,
               [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
View == env
=============================================================================
