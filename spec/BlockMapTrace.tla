--------------------------- MODULE BlockMapTrace ----------------------------
(* Recorded calls of functions mapped over blocks and the rasters they gave. *)
EXTENDS BlockMap, TraceBase
VARIABLES l, fails, acts
Map(ev) == [bnd |-> ev.bnd, bv |-> ev.bv, dep |-> ev.dep]
\* what the function must see of the block at loc
Expected(ev, loc) ==
  LET b == Block(ev.used, loc)
      g == Grown(ev.rs[1], b, Map(ev))
      n == Len(ev.rs)
  IN [loc |-> loc, b |-> b, g |-> g,
      d |-> [q \in 1..n |-> View(ev.rs[q], g, Map(ev))],
      m |-> IF ev.wants.masks = 1 THEN [q \in 1..n |-> MaskView(ev.rs[q], g, Map(ev))] ELSE <<>>]
InNulls(ev) == [q \in DOMAIN ev.rs |-> ev.rs[q].nv]
Nv(ev) == OutNull(ev.rs, ev.given, ev.nv, ev.dt)
\* clauses a call fails to be the one of an expected block
Differs(ev, e, c) ==
  Clause("shape", c.shape = Shape(e.g))
  \cup Clause("values", c.d = e.d)
  \cup Clause("types", c.dts = [q \in DOMAIN ev.rs |-> ev.rs[q].dt])
  \cup Clause("masks", c.m = e.m)
  \cup Clause("location", ev.wants.id = 0 \/ c.id = e.loc)
  \cup Clause("block-info", ev.wants.info = 0 \/ (c.infoloc = e.loc /\ (ev.over = 1 \/ c.infoarr = <<e.b.b0, e.b.b1, e.b.r0, e.b.r1, e.b.c0, e.b.c1>>)))
  \cup Clause("input-null-values", ev.wants.innv = 0 \/ c.innv = InNulls(ev))
  \cup Clause("output-null-value", ev.wants.outnv = 0 \/ c.outnv = Nv(ev))
  \cup Clause("arguments", c.kw = ev.kw)
  \cup Clause("geo-block-info", ev.wants.geo = 0 \/ c.win = <<e.g.b0, e.g.b1, e.g.r0, e.g.r1, e.g.c0, e.g.c1>>)
  \cup IF ev.geo = 0 THEN {}
       ELSE Clause("x", c.x = Xs(ev.p, e.g)) \cup Clause("y", c.y = Ys(ev.p, e.g)) \cup Clause("band", c.bands = Bands(e.g))
            \cup Clause("crs", c.crs = ev.p.crs) \cup Clause("nodata", c.nod = InNulls(ev)) \cup Clause("labels", c.labels = 1)
Least(S) == CHOOSE s \in S : \A t \in S : Cardinality(s) <= Cardinality(t)
Calls(ev, es) ==
  UNION {IF \E e \in es : Differs(ev, e, ev.calls[c]) = {} THEN {} ELSE Least({Differs(ev, e, ev.calls[c]) : e \in es}) : c \in DOMAIN ev.calls}
Missing(ev, es) == Clause("block-not-seen", \A e \in es : \E c \in DOMAIN ev.calls : Differs(ev, e, ev.calls[c]) = {})
\* result cells of the block of e, from a call for it
Cell(ev, e, c, k, i, j) ==
  LET q == Within(e.g, IF ev.ob = 0 THEN e.g.b0 ELSE 0, k, i, j)
      nv == Nv(ev)
      d == c.rd[q]
  IN IF ev.rm = 0 THEN [d |-> d, m |-> B2I(nv # NONE /\ d = nv)]
     ELSE [d |-> IF c.rm[q] = 0 THEN d ELSE IF nv = NONE THEN DefaultNull(ev.dt) ELSE nv, m |-> c.rm[q]]
Cellwise(ev, es) ==
  \A e \in es : LET c == ev.calls[CHOOSE c \in DOMAIN ev.calls : Differs(ev, e, ev.calls[c]) = {}]
                    bands == IF ev.ob = 0 THEN e.b.b0..(e.b.b1 - 1) ELSE 0..(ev.ob - 1)
                IN \A k \in bands, i \in e.b.r0..(e.b.r1 - 1), j \in e.b.c0..(e.b.c1 - 1) :
                     LET w == Cell(ev, e, c, k, i, j)
                         at == k * ev.out.h * ev.out.w + i * ev.out.w + j + 1
                     IN ev.out.d[at] = w.d /\ ev.out.m[at] = w.m
\* trial calls made while the result is set up: without place, with a typed zero; none if the outcome is described
Probes(ev) ==
  /\ (ev.described = 1 => ev.probes = <<>>)
  /\ \A k \in DOMAIN ev.probes : LET q == ev.probes[k] IN q.placed = 0 /\ (ev.wants.outnv = 1 => q.zero = 1 /\ q.dt = ev.rs[1].dt)
OutBands(ev) == IF ev.ob = 0 THEN ev.rs[1].nb ELSE ev.ob
SomeMasked(ev) == \E c \in DOMAIN ev.calls : \E q \in DOMAIN ev.calls[c].rm : ev.calls[c].rm[q] = 1
Judge(ev) ==
  CASE ev.op = "error" -> Clause("not-refused", ev.exc = Refused[ev.err])
    [] ev.op = "map" ->
         IF ev.over = 1 /\ ~CanOverlap(ev.rs[1], Map(ev)) THEN Clause("not-refused", ev.exc = "ValueError")
         ELSE IF ev.exc # "" THEN {"raised"}
         ELSE IF ~IF ev.over = 1 THEN UsedChunks(ev.chunks, ev.used, ev.rs[1], Map(ev))
                 ELSE IF ev.ob = 0 THEN ev.used = ev.chunks
                 ELSE ev.used[1] = <<ev.rs[1].nb>> /\ Parts(ev.used[2], ev.rs[1].h, 1) /\ Parts(ev.used[3], ev.rs[1].w, 1)
              THEN {"blocks"}
         ELSE LET es == TLCEval({Expected(ev, loc) : loc \in Locs(ev.used)})
                  cs == TLCEval(Calls(ev, es))
                  ms == TLCEval(Missing(ev, es))
                  sh == Clause("result-shape", <<ev.out.nb, ev.out.h, ev.out.w>> = <<OutBands(ev), ev.rs[1].h, ev.rs[1].w>>)
                        \cup Clause("result-type", ev.out.dt = ev.dt)
              IN cs \cup ms \cup sh
                 \cup Clause("result-null-value", ev.out.nv = Nv(ev) \/ (ev.rm = 1 /\ Nv(ev) = NONE /\ ev.out.nv = DefaultNull(ev.dt)))
                 \cup Clause("result-grid", ev.out.g = ev.rs[1].g)
                 \cup Clause("result-chunks", ev.ochunks[2] \in {ev.chunks[2], IF ev.over = 1 THEN ev.used[2] ELSE ev.chunks[2]}
                                              /\ ev.ochunks[3] \in {ev.chunks[3], IF ev.over = 1 THEN ev.used[3] ELSE ev.chunks[3]}
                                              /\ ev.ochunks[1] = [k \in 1..OutBands(ev) |-> 1])
                 \cup Clause("probe", Probes(ev))
                 \cup Clause("source-changed", ev.after = ev.rs)
                 \cup IF cs # {} \/ ms # {} \/ sh # {} THEN {} ELSE Clause("result-cells", Cellwise(ev, es))
Init == l = 1 /\ fails = <<>> /\ acts = [x \in {} |-> 0]
Next ==
  \/ /\ l <= Len(Trace)
     /\ LET ev == Trace[l]
            bad == Judge(ev)
        IN /\ fails' = IF bad = {} THEN fails ELSE Append(fails, [at |-> l, clauses |-> bad])
           /\ acts' = Count(acts, ev.op)
     /\ l' = l + 1
  \/ /\ l = Len(Trace) + 1
     /\ WriteVerdict(l - 1, fails, acts)
     /\ l' = l + 1
     /\ UNCHANGED <<fails, acts>>
Spec == Init /\ [][Next]_<<l, fails, acts>>
=============================================================================
