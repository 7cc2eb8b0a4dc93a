------------------------ MODULE RasterSessionTrace ------------------------
(* Validates a recorded session: every recorded call must be the action of   *)
(* RasterSession with its arguments and its observed result.  The verdict is *)
(* total: a failing event is recorded with the clauses it violates, the      *)
(* observed result is adopted and checking goes on.                          *)
EXTENDS RasterSession, TraceBase
VARIABLES l, fails, acts

Judge(ev) ==
  CASE ev.op = "reset" -> {}
    [] ev.op = "new" -> (IF ev.exc # "" THEN {"raised"} ELSE Clause("consistent", NullConsistent(ev.out)))
    [] ev.op = "obs" -> (IF ev.exc # "" THEN {"raised"}
                         ELSE Clause("input-changed", env[ev.h] = ev.out))
    [] OTHER ->
       IF Raises(env, ev) THEN Clause("error-expected", ev.exc # "")
       ELSE IF ev.exc # "" THEN {"raised"}
       ELSE Diff(Apply(env, ev), ev.out)

Init == env = <<>> /\ l = 1 /\ fails = <<>> /\ acts = [x \in {} |-> 0]
Next ==
  \/ /\ l <= Len(Trace)
     /\ LET ev == Trace[l]
            bad == Judge(ev)
        IN /\ fails' = IF bad = {} THEN fails ELSE Append(fails, [at |-> l, clauses |-> bad])
           /\ acts' = Count(acts, ev.op)
           /\ env' = IF ev.op = "reset" THEN <<>>
                     ELSE IF ev.op = "obs" THEN env
                     ELSE IF ev.exc # "" THEN (IF ev.op = "new" THEN Append(env, ev.out) ELSE env)
                     ELSE IF ev.inplace = 1 THEN [env EXCEPT ![ev.a.h] = ev.out]
                     ELSE Append(env, ev.out)
     /\ l' = l + 1
  \/ /\ l = Len(Trace) + 1
     /\ WriteVerdict(l - 1, fails, acts)
     /\ l' = l + 1
     /\ UNCHANGED <<env, fails, acts>>
Spec == Init /\ [][Next]_<<env, l, fails, acts>>
=============================================================================
