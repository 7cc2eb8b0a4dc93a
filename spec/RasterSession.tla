--------------------------- MODULE RasterSession ---------------------------
(* A session with the library: a growing environment of raster handles and   *)
(* one action per public operation.  An event is the call: its name and      *)
(* arguments.  The result is appended as a new handle; in-place operators    *)
(* rebind one handle; nothing else in the environment may change.            *)
EXTENDS RasterSem, Json, IOUtils

VARIABLES env      \* sequence of rasters, one per handle

\* resolve an operand of an event against the environment
Res(e, o) == IF o.k = "h" THEN [k |-> "r", r |-> e[o.h]] ELSE o

OutTypeOfMap(r, tos) ==   \* tos: sequence of [v, t] outputs that are not null
  IF Len(tos) = 0 THEN r.dt
  ELSE Promote(r.dt, LitType({tos[k].v : k \in {j \in 1..Len(tos) : tos[j].t = "int"}},
                             {tos[k].v : k \in {j \in 1..Len(tos) : tos[j].t = "float"}}))
NonNull(ms) == SelectSeq(ms, LAMBDA q : q.to # NONE)
TosOf(ms) == LET s == NonNull(ms) IN [k \in 1..Len(s) |-> [v |-> s[k].to, t |-> s[k].t]]

\* does the documented operation raise for these arguments
Raises(e, ev) ==
  CASE ev.op = "bin" -> BinError(ev.f, OpDt(Res(e, ev.a)), OpDt(Res(e, ev.b)))
    [] ev.op = "un" -> UnError(ev.f, e[ev.h].dt)
    [] ev.op = "bands" -> \/ Len(ev.bands) = 0
                          \/ \E k \in 1..Len(ev.bands) : ev.bands[k] < 1 \/ ev.bands[k] > e[ev.h].nb
    [] OTHER -> FALSE

\* the raster the documented operation yields
Apply(e, ev) ==
  CASE ev.op = "bin" -> LET a == Res(e, ev.a)
                            b == Res(e, ev.b)
                        IN Binary(ev.f, IF a.k = "r" THEN a.r ELSE b.r, a, b)
    [] ev.op = "un" -> Unary(ev.f, e[ev.h])
    [] ev.op = "tab" -> LET os == [k \in 1..Len(ev.os) |-> Res(e, ev.os[k])]
                            rs == SelectSeq(os, LAMBDA o : o.k = "r")
                        IN Tabled(rs[1].r, os, ev.dt, ev.tab)
    [] ev.op = "setnv" -> SetNullValue(e[ev.h], ev.v, ev.t)
    [] ev.op = "setnull" -> SetNull(e[ev.h], e[ev.q])
    [] ev.op = "nullmask" -> ToNullMask(e[ev.h])
    [] ev.op = "same" -> e[ev.h]           \* copy, load, chunk, burn, pos round
    [] ev.op = "astype" -> AsType(e[ev.h], ev.dt)
    [] ev.op = "astypenv" -> AsTypeNull(e[ev.h], ev.dt, ev.v)
    [] ev.op = "round" -> Round(e[ev.h], ev.dec)
    [] ev.op = "bands" -> GetBands(e[ev.h], ev.bands)
    [] ev.op = "where" -> Where(e[ev.h], Res(e, ev.a), Res(e, ev.b))
    [] ev.op = "remap" -> Remap(e[ev.h], ev.rs, ev.inc, OutTypeOfMap(e[ev.h], TosOf(ev.rs)))
    [] ev.op = "reclass" -> Reclass(e[ev.h], ev.mp, ev.un = 1, OutTypeOfMap(e[ev.h], TosOf(ev.mp)))

Call(ev) == /\ ~Raises(env, ev)
            /\ env' = Append(env, Apply(env, ev))
InPlace(ev) == /\ ~Raises(env, ev)
               /\ env' = [env EXCEPT ![ev.a.h] = Apply(env, ev)]
Fail(ev) == Raises(env, ev) /\ UNCHANGED env

TypeOK == \A k \in 1..Len(env) : WellFormed(env[k])
Consistent == \A k \in 1..Len(env) : NullConsistent(env[k])
\* handles never change except the one an in-place operator is applied to
AtMostOneRebound == [][ \/ /\ Len(env') = Len(env) + 1
                           /\ \A k \in 1..Len(env) : env'[k] = env[k]
                        \/ /\ Len(env') = Len(env)
                           /\ Cardinality({k \in 1..Len(env) : env'[k] # env[k]}) <= 1 ]_env
=============================================================================
