------------------------------ MODULE BatchTrace ------------------------------
(* Recorded runs of batch scripts.                                           *)
EXTENDS Batch, TraceBase
VARIABLES l, fails, acts
FilesOf(ev) == [n \in {ev.files[k].n : k \in DOMAIN ev.files} |->
                  (CHOOSE q \in {ev.files[k] : k \in DOMAIN ev.files} : q.n = n).r]
Tagged(S, t) == {t \o x : x \in S}
Judge(ev) ==
  LET st == Run(FilesOf(ev), ev.stmts)
  IN IF ~st.ok
     THEN Clause("not-refused", ev.exc # "")
          \cup (IF ev.exc = "" THEN {} ELSE Clause("error-type", ev.exc = "BatchScriptParseError")
                                            \cup Clause("error-line", ev.eline = st.line))
     ELSE IF ev.stmts = <<>> THEN Clause("not-refused", ev.exc = "BatchScriptParseError")
     ELSE IF ev.exc # "" THEN {"raised"}
     ELSE Clause("names", {ev.env[k].n : k \in DOMAIN ev.env} = DOMAIN st.env /\ Len(ev.env) = Cardinality(DOMAIN st.env))
          \cup UNION {IF ev.env[k].n \notin DOMAIN st.env THEN {} ELSE Diff(st.env[ev.env[k].n], ev.env[k].r) : k \in DOMAIN ev.env}
          \cup Tagged(Diff(st.env[st.last], ev.final), "final-")
          \cup Tagged(Diff(st.env[st.last], ev.direct), "raster-of-script-")
          \cup Clause("saved-files", {ev.saved[k].n : k \in DOMAIN ev.saved} = DOMAIN st.files \ DOMAIN FilesOf(ev))
          \cup UNION {IF ev.saved[k].n \notin DOMAIN st.files THEN {} ELSE Tagged(Diff(st.files[ev.saved[k].n], ev.saved[k].r), "saved-") : k \in DOMAIN ev.saved}
          \cup Clause("saved-block", \A k \in DOMAIN ev.saved : \A j \in DOMAIN ev.stmts :
                        ev.stmts[j].op = "SAVEFUNCTIONRASTER" => (ev.stmts[j].file = ev.saved[k].n /\ ev.stmts[j].block # <<>> => ev.saved[k].block = ev.stmts[j].block))
          \cup Clause("files-changed", ev.again = 1)
Init == l = 1 /\ fails = <<>> /\ acts = [x \in {} |-> 0]
Next ==
  \/ /\ l <= Len(Trace)
     /\ LET ev == Trace[l]
            bad == Judge(ev)
        IN /\ fails' = IF bad = {} THEN fails ELSE Append(fails, [at |-> l, clauses |-> bad])
           /\ acts' = Count(acts, ev.op)
     /\ l' = l + 1
  \/ /\ l = Len(Trace) + 1
     /\ WriteVerdict(l - 1, fails, acts)
     /\ l' = l + 1
     /\ UNCHANGED <<fails, acts>>
Spec == Init /\ [][Next]_<<l, fails, acts>>
=============================================================================
