------------------------------- MODULE MC_Batch -------------------------------
(* All short scripts over a few names, a file and a few statements.          *)
EXTENDS Batch
CONSTANTS NAMES, DEPTH, FILES, NUMS
VARIABLES st, script
vars == <<st, script>>
File(dt, nv, d, m) == [dt |-> dt, nv |-> nv, nb |-> 2, h |-> 1, w |-> 2, d |-> d, m |-> m, g |-> <<>>]
AllFiles == [f |-> File("u1", 0, <<0, 3, 7, 0>>, <<1, 0, 0, 1>>), q |-> File("i2", NONE, <<5, -2, 3, 0>>, <<0, 0, 0, 0>>),
             z |-> File("f4", NAN, <<NAN, 1, 2, 4>>, <<1, 0, 0, 0>>)]
Refs == {[k |-> "ref", n |-> n] : n \in NAMES \cup FILES}
Nums == {[k |-> "num", v |-> v] : v \in NUMS}
Ranges == {<<[lo |-> 1, hi |-> 4, to |-> 9]>>, <<[lo |-> 0, hi |-> 3, to |-> 3], [lo |-> 2, hi |-> 8, to |-> 0]>>, <<[lo |-> 4, hi |-> 4, to |-> 1]>>}
Stmt(line) ==
  {[line |-> line, dst |-> n, op |-> "ARITHMETIC", l |-> a, r |-> b, sym |-> s] : n \in NAMES, a \in Refs, b \in Refs \cup Nums, s \in {"+", "*", "?"}}
  \cup {[line |-> line, dst |-> n, op |-> "COMPOSITE", rs |-> <<a, b>>] : n \in NAMES, a \in Refs, b \in Refs}
  \cup {[line |-> line, dst |-> n, op |-> "EXTRACTBAND", l |-> a, bands |-> bs] : n \in NAMES, a \in Refs, bs \in {<<2, 1>>, <<3>>}}
  \cup {[line |-> line, dst |-> n, op |-> "NULLTOVALUE", l |-> a, v |-> 3] : n \in NAMES, a \in Refs}
  \cup {[line |-> line, dst |-> n, op |-> o, l |-> a, ranges |-> rg] : n \in NAMES, a \in Refs, rg \in Ranges, o \in {"REMAP", "SETNULL"}}
  \cup {[line |-> line, dst |-> n, op |-> "OPENRASTER", l |-> a] : n \in NAMES, a \in Refs}
  \cup {[line |-> line, dst |-> n, op |-> "SAVEFUNCTIONRASTER", l |-> a, v |-> 3, kind |-> "int", file |-> "s"] : n \in NAMES, a \in Refs}
  \cup {[line |-> line, dst |-> "", op |-> "BAD"]}
Sized(s) == CASE s.op = "COMPOSITE" -> \A k \in 1..2 : Resolves(st, s.rs[k]) => Get(st, s.rs[k]).nb <= 2
              [] s.op = "ARITHMETIC" -> \/ s.r.k = "num" \/ ~Resolves(st, s.l) \/ ~Resolves(st, s.r)
                                        \/ Get(st, s.l).nb = Get(st, s.r).nb
              [] OTHER -> TRUE
Init == st = Start([n \in FILES |-> AllFiles[n]]) /\ script = <<>>
Next == /\ Len(script) < DEPTH /\ st.ok
        /\ \E s \in Stmt(Len(script) + 1) :
             /\ Sized(s) = TRUE
             /\ st' = Step(st, s) /\ script' = Append(script, s)
Spec == Init /\ [][Next]_vars
Known0(r) == \A i \in Cells(r) : r.d[i] # ANY /\ r.m[i] # ANY
\* every bound raster is well formed, its nulls hold its null value
Consistent == \A n \in DOMAIN st.env : Known0(st.env[n]) => NullConsistent(st.env[n])
\* a failed script names the line it stopped at; later lines are not run
Stops == ~st.ok => st.line = Len(script)
\* a script means the same when every assignment gets a name of its own
Fresh(k) == ToString(k)
RECURSIVE LastTo(_, _)
LastTo(n, k) == IF k = 0 THEN 0 ELSE IF script[k].dst = n THEN k ELSE LastTo(n, k - 1)
Renamed(o, k) == IF o.k = "num" THEN o ELSE LET j == LastTo(o.n, k - 1) IN IF j = 0 THEN o ELSE [o EXCEPT !.n = Fresh(j)]
Ssa(k) == LET s == script[k]
              s1 == [s EXCEPT !.dst = Fresh(k)]
          IN CASE s.op = "BAD" -> s1
               [] s.op = "COMPOSITE" -> [s1 EXCEPT !.rs = [j \in DOMAIN s.rs |-> Renamed(s.rs[j], k)]]
               [] s.op = "ARITHMETIC" -> [s1 EXCEPT !.l = Renamed(s.l, k), !.r = Renamed(s.r, k)]
               [] OTHER -> [s1 EXCEPT !.l = Renamed(s.l, k)]
SingleAssignment ==
  LET q == Run([n \in FILES |-> AllFiles[n]], [k \in DOMAIN script |-> Ssa(k)])
  IN /\ q.ok = st.ok /\ q.line = st.line
     /\ st.ok => \A n \in DOMAIN st.env : q.env[Fresh(LastTo(n, Len(script)))] = st.env[n]
\* a statement changes only the name it binds
OnlyItsName == [][\A n \in DOMAIN st.env : n = script'[Len(script')].dst \/ st'.env[n] = st.env[n]]_vars
=============================================================================
