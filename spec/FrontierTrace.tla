--------------------------- MODULE FrontierTrace ---------------------------
(* Recorded sequences of queue operations are behaviours of Frontier.        *)
EXTENDS Frontier, TraceBase
VARIABLES q, maxv, l, fails, acts
Judge(ev) ==
  CASE ev.op = "init" -> Clause("init", ev.exc = ev.want /\ (ev.exc # "" \/ ev.count = 0))
    [] ev.op = "push" -> Clause("flag", ev.flag = PushFlag(q, ev.v, maxv))
                         \cup Clause("count", ev.count = Cardinality(Held(PushTo(q, ev.k, ev.v, maxv))))
    [] ev.op = "lower" -> Clause("flag", ev.flag = LowerFlag(q, ev.k, ev.v, maxv))
                          \cup Clause("count", ev.count = Cardinality(Held(LowerTo(q, ev.k, ev.v, maxv))))
    [] ev.op = "pop" -> Clause("removed", PopOk(q, ev.k, ev.v))
                        \cup Clause("count", ev.count = Cardinality(Held(q)) - (IF Held(q) = {} THEN 0 ELSE 1))
    [] OTHER -> {"unknown"}
Empty == << >>
Init == q = Empty /\ maxv = 0 /\ l = 1 /\ fails = <<>> /\ acts = [x \in {} |-> 0]
Next ==
  \/ /\ l <= Len(Trace)
     /\ LET ev == Trace[l]
            bad == Judge(ev)
        IN /\ fails' = IF bad = {} THEN fails ELSE Append(fails, [at |-> l, clauses |-> bad])
           /\ acts' = Count(acts, ev.op)
           /\ q' = CASE ev.op = "init" -> Empty
                     [] ev.op = "push" -> PushTo(q, ev.k, ev.v, maxv)
                     [] ev.op = "lower" -> LowerTo(q, ev.k, ev.v, maxv)
                     [] ev.op = "pop" -> (IF ev.v \in Held(q) THEN PopTo(q, ev.v) ELSE q)
           /\ maxv' = IF ev.op = "init" THEN ev.maxv ELSE maxv
     /\ l' = l + 1
  \/ /\ l = Len(Trace) + 1
     /\ WriteVerdict(l - 1, fails, acts)
     /\ l' = l + 1
     /\ UNCHANGED <<q, maxv, fails, acts>>
Spec == Init /\ [][Next]_<<q, maxv, l, fails, acts>>
=============================================================================
