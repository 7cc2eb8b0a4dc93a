---------------------------- MODULE InputsTrace ----------------------------
(* Recorded operands of calls: held is what the operands say, and no step    *)
(* (a call, whether it raises or not, the computation of its result, what is *)
(* done to the result in place) may change it.                               *)
EXTENDS Chunking, TraceBase
VARIABLES l, fails, acts, held
Judge(ev) ==
  IF ev.op = "new" THEN {}
  ELSE IF Len(ev.held) # Len(held) THEN {"operands-unreadable"}
  ELSE UNION {PartDiff(held[i], ev.held[i]) : i \in DOMAIN held}
Init == l = 1 /\ fails = <<>> /\ acts = [x \in {} |-> 0] /\ held = <<>>
Next ==
  \/ /\ l <= Len(Trace)
     /\ LET ev == Trace[l]
            bad == Judge(ev)
        IN /\ fails' = IF bad = {} THEN fails ELSE Append(fails, [at |-> l, clauses |-> bad])
           /\ acts' = Count(acts, IF ev.op = "call" THEN ev.call ELSE ev.op)
           /\ held' = IF ev.op = "new" THEN ev.held ELSE held
     /\ l' = l + 1
  \/ /\ l = Len(Trace) + 1
     /\ WriteVerdict(l - 1, fails, acts)
     /\ l' = l + 1
     /\ UNCHANGED <<fails, acts, held>>
Spec == Init /\ [][Next]_<<l, fails, acts, held>>
=============================================================================
