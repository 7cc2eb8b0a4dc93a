----------------------------- MODULE CallTrace -----------------------------
(* Recorded outcomes of the same call on the same operands held in different *)
(* ways.  memo is what the call was first found to mean.                     *)
EXTENDS Chunking, TraceBase
VARIABLES l, fails, acts, memo
Judge(ev) ==
  CASE ev.op = "case" -> {}
    [] ev.op = "call" -> IF memo = <<>> THEN {} ELSE OutcomeDiff(memo[1], ev)
Learn(ev) == IF ev.op = "case" THEN <<>> ELSE IF memo = <<>> THEN <<ev>> ELSE memo
Init == l = 1 /\ fails = <<>> /\ acts = [x \in {} |-> 0] /\ memo = <<>>
Next ==
  \/ /\ l <= Len(Trace)
     /\ LET ev == Trace[l]
            bad == Judge(ev)
        IN /\ fails' = IF bad = {} THEN fails ELSE Append(fails, [at |-> l, clauses |-> bad])
           /\ acts' = Count(acts, IF ev.op = "case" THEN ev.call ELSE ev.op)
           /\ memo' = Learn(ev)
     /\ l' = l + 1
  \/ /\ l = Len(Trace) + 1
     /\ WriteVerdict(l - 1, fails, acts)
     /\ l' = l + 1
     /\ UNCHANGED <<fails, acts, memo>>
Spec == Init /\ [][Next]_<<l, fails, acts, memo>>
=============================================================================
