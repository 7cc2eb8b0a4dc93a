----------------------------- MODULE VectorTrace -----------------------------
(* Recorded operations on vectors: the vector before, the result, the vector *)
(* afterwards.                                                               *)
EXTENDS VectorOps, TraceBase, RasterSem
VARIABLES l, fails, acts
Cast3(v, from, to) == CastVal(v, from, to)
MinB(o, k) == SetMin({o.fb[i][k] : i \in DOMAIN o.fb})
MaxB(o, k) == SetMax({o.fb[i][k] : i \in DOMAIN o.fb})
\* what a vector tells about itself
Self(o) ==
  LET n == Len(o.t.rows)
  IN Clause("length", o.len = n /\ o.size = n)
     \cup Clause("shape", o.shape = <<n, Len(o.t.cols)>>)
     \cup Clause("field-names", o.fields = o.t.cols)
     \cup Clause("field-types", o.ftypes = o.t.types)
     \cup Clause("attribute-table", o.table = o.t.rows)
     \cup Clause("shapes", o.shapely = [i \in 1..n |-> o.t.rows[i].g])
     \cup Clause("bounds", o.fb = <<>> \/ o.bounds = <<MinB(o, 1), MinB(o, 2), MaxB(o, 3), MaxB(o, 4)>>)
Same(a, b) == Clause("columns", a.cols = b.cols) \cup Clause("types", a.types = b.types) \cup Clause("features", a.rows = b.rows)
Shuffled(a, b) == Clause("columns", a.cols = b.cols) \cup Clause("types", a.types = b.types) \cup Clause("features", SameBag(a.rows, b.rows))
Ids(ev) ==
  LET a == ev.pre.t
      b == ev.post.t
      k == Len(b.cols)
  IN IF Len(b.cols) # Len(a.cols) + 1 \/ Len(b.rows) # Len(a.rows) THEN {"columns"}
     ELSE LET ids == [i \in DOMAIN b.rows |-> b.rows[i].a[k]]
          IN Same(AddCol(a, IdName(a.cols, ev.name), "i8", ids), b)
             \cup Clause("unique-ids", Injective(ids))
             \cup Clause("positive-ids", \A i \in DOMAIN ids : ids[i] > 0)
Refused(ev) ==
  CASE ev.op = "get" -> ev.i >= Len(ev.pre.t.rows) \/ ev.i < 0 - Len(ev.pre.t.rows)
    [] ev.op = "ids" -> ev.name # "" /\ InSeq(ev.name, ev.pre.t.cols \o <<"geometry">>)
    [] ev.op = "cast" -> ~InSeq(ev.name, ev.pre.t.cols)
    [] OTHER -> FALSE
\* files have the index as an additional first column if it is named
DropFirst(t) == IF t.cols = <<>> THEN t ELSE [cols |-> Tail(t.cols), types |-> Tail(t.types), rows |-> [i \in DOMAIN t.rows |-> [t.rows[i] EXCEPT !.a = Tail(@)]]]
Judge(ev) ==
  Clause("source-changed", ev.after = ev.pre)
  \cup IF Refused(ev) THEN Clause("not-refused", ev.exc = (IF ev.op = "get" THEN "IndexError" ELSE "ValueError"))
       ELSE IF ev.exc # "" THEN {"raised"}
       ELSE IF ev.op = "iterate" THEN Clause("features", ev.list = [i \in DOMAIN ev.pre.t.rows |-> <<ev.pre.t.rows[i]>>])
       ELSE Self(ev.post)
            \cup Clause("crs", ev.post.crs = (IF ev.op = "crs" THEN ev.to ELSE ev.pre.crs))
            \cup CASE ev.op \in {"copy", "load", "lazy", "partitions", "dask", "coerce", "eval"} -> Same(ev.pre.t, ev.post.t)
                   [] ev.op = "save" -> IF ev.pre.idx = "" THEN Same(ev.pre.t, ev.post.t) ELSE Same(ev.pre.t, DropFirst(ev.post.t))
                   [] ev.op = "source" -> IF ev.fixed THEN Same(ev.pre.t, ev.post.t) ELSE Shuffled(ev.pre.t, ev.post.t)
                   [] ev.op = "shuffle" -> Shuffled(ev.pre.t, ev.post.t)
                   [] ev.op = "crs" -> Same(MapGeo(ev.pre.t, ev.T), ev.post.t)
                   [] ev.op \in {"buffer", "simplify"} -> Same(MapGeo(GeoOnly(ev.pre.t), ev.T), ev.post.t)
                   [] ev.op = "cast" -> Same(CastCol(ev.pre.t, ev.name, ev.dt, Cast3), ev.post.t)
                   [] ev.op = "get" -> Same(Take(ev.pre.t, ev.i), ev.post.t)
                   [] ev.op = "ids" -> Ids(ev)
                   [] OTHER -> {"unknown"}
Init == l = 1 /\ fails = <<>> /\ acts = [x \in {} |-> 0]
Next ==
  \/ /\ l <= Len(Trace)
     /\ LET ev == Trace[l]
            bad == Judge(ev)
        IN /\ fails' = IF bad = {} THEN fails ELSE Append(fails, [at |-> l, clauses |-> bad])
           /\ acts' = Count(acts, ev.op)
     /\ l' = l + 1
  \/ /\ l = Len(Trace) + 1
     /\ WriteVerdict(l - 1, fails, acts)
     /\ l' = l + 1
     /\ UNCHANGED <<fails, acts>>
Spec == Init /\ [][Next]_<<l, fails, acts>>
=============================================================================
