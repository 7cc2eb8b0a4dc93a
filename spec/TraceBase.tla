----------------------------- MODULE TraceBase -----------------------------
(* Shared by all trace specifications: the recorded trace and the verdict.   *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.VT_TRACE)
Count(acts, a) == IF a \in DOMAIN acts THEN [acts EXCEPT ![a] = @ + 1] ELSE acts @@ (a :> 1)
WriteVerdict(n, fails, acts) ==
  JsonSerialize(IOEnv.VT_VERDICT, <<[checked |-> n, fails |-> fails, acts |-> acts]>>)
=============================================================================
