---- MODULE TraceVector ----
(* Validates recorded operations of the real vector individuals.            *)
EXTENDS TraceBase

V == INSTANCE Vector WITH N <- 1, Lo <- <<0>>, Hi <- <<0>>, MaxN <- 1, MaxAtt <- 1, Bug <- "none",
                          vec <- 0, last <- 0, att <- 0, phase <- 0, saved <- 0, cur <- 0

VARIABLES l, st

Zero == [lo |-> <<>>, hi |-> <<>>, vs |-> <<>>]

\* positions whose two bounds differ (a re-draw of another cell cannot be seen)
Wide(lo, hi) == {p \in DOMAIN lo : lo[p] # hi[p]}

ShapeOk(vs, lo) == \A i \in DOMAIN vs : Len(vs[i]) = Len(lo)

Shape(e) ==
  C("C10.length", ShapeOk(e.post, st.lo)) \cup
  (IF ShapeOk(e.post, st.lo)
   THEN C("C10.bounds", \A i \in DOMAIN e.post : V!InB(e.post[i], st.lo, st.hi)) ELSE {}) \cup
  C("C10.kind", e.kinds)

Frame(e, who) == \A i \in DOMAIN st.vs : i \notin who => e.post[i] = st.vs[i]

XO(e) ==
  IF e.k > Len(st.lo) - 1
  THEN C("C11.toomany", e.exc # "" /\ e.post = st.vs)
  ELSE C("C11.exc", e.exc = "")
       \cup C("C11.same", e.same)
       \cup C("C11.inval", \A x \in DOMAIN e.ev : ~e.ev[x])
       \cup C("C11.frame", Frame(e, {e.i, e.j}))
       \cup C("C11.segments", Len(e.post[e.i]) = Len(st.lo) /\ Len(e.post[e.j]) = Len(st.lo)
                /\ V!XOFits(e.k, st.vs[e.i], st.vs[e.j], e.post[e.i], e.post[e.j]))
       \cup Shape(e)

\* one individual's change under mutation class e.cls
MutOne(e, u, u2) ==
  LET d == Cardinality(V!Diff(u, u2)) IN
  IF Len(u2) # Len(u) THEN {"C12.length"}
  ELSE CASE e.cls = "flip"  -> C("C12.flip", V!FlipOk(u, u2, st.lo, st.hi))
         [] e.cls = "nflip" -> C("C12.nflip", V!NFlipOk(e.n, u, u2, st.lo, st.hi))
         [] e.cls = "npoint" ->
              C("C12.atmost", d <= e.n) \cup
              CI("C12.exact", e.wide, d = e.n)
         [] e.cls = "maybe" ->     \* applied, but a fallback may have been skipped
              C("C12.atmost", d <= e.n) \cup CI("C12.exact", e.wide, d = e.n \/ d = 0)
         [] e.cls = "each"  -> {}
         [] e.cls = "skipped" -> C("C12.skipped", u2 = u)

Mut(e) ==
  C("C12.exc", e.exc = "")
  \cup C("C12.same", e.same)
  \cup C("C12.frame", Frame(e, Range(e.who)))
  \cup UNION {MutOne(e, st.vs[i], e.post[i]) : i \in Range(e.who)}
  \cup Shape(e)

Pres(e) == [x \in DOMAIN e.who |-> st.vs[e.who[x]]]
Posts(e) == [x \in DOMAIN e.who |-> e.post[e.who[x]]]

Custom(e) ==
  C("C12.exc", e.exc = "")
  \cup C("C12.same", e.same)
  \cup C("C12.frame", Frame(e, Range(e.who)))
  \cup C("C12.attempts", V!LogOk(Pres(e), e.log, e.maxatt))
  \cup C("C12.clean", \A t \in DOMAIN e.log : V!AttemptClean(Pres(e), e.log[t]))
  \cup C("C12.result", Posts(e) = V!FinalGenomes(Pres(e), e.log))
  \cup C("C12.newold", \A t \in DOMAIN e.log : \A x \in DOMAIN e.log[t] : Len(e.log[t][x].cells) = Len(e.log[t][x].vals))

Check(e) ==
  CASE e.op = "Setup"  -> {}
    [] e.op = "Create" ->
         C("C10.exc", e.exc = "") \cup
         C("C10.count", Len(e.vs) = e.count) \cup
         C("C10.length", ShapeOk(e.vs, e.lo)) \cup
         (IF ShapeOk(e.vs, e.lo)
          THEN C("C10.bounds", \A i \in DOMAIN e.vs : V!InB(e.vs[i], e.lo, e.hi)) ELSE {}) \cup
         C("C10.kind", e.kinds)
    [] e.op = "XO"     -> XO(e)
    [] e.op = "XOCover" ->
         LET O == {e.outs[x] : x \in DOMAIN e.outs}
             A == V!XOOutcomes(e.k, e.u, e.v)
             B == V!XOOutcomesAlt(e.k, e.u, e.v)
         IN C("C11.outcome", O \subseteq (A \cup B)) \cup
            C("C11.allcuts", \A c \in V!CutSets(Len(e.u), e.k) :
                  V!KPoint(e.u, e.v, c) \in O \/ V!KPointAlt(e.u, e.v, c) \in O)
    [] e.op = "XOReach" ->
         C("C11.reach", Range(e.cut) = 1..(e.n - 1) /\ (e.k < e.n - 1 => Range(e.uncut) = 1..(e.n - 1))) \cup
         C("C11.segments", \A c \in Range(e.counts) : c = e.k)
    [] e.op = "PosReach" ->
         C("C12.positions", CASE e.how = "cells" -> Range(e.cells) = 1..e.n
                              [] e.how = "regions" -> Range(e.regions) = 1..6
                              [] OTHER -> {e.pairs[x] : x \in DOMAIN e.pairs} = {<<a, b>> \in (1..6) \X (1..6) : a <= b})
    [] e.op = "Mut"    -> Mut(e)
    [] e.op = "Custom" -> Custom(e)
    [] e.op = "InB"    -> C("C10.query", e.ans = V!InB(e.vec, e.lo, e.hi))
    [] e.op = "Cover"  -> C("C10.reach", \A p \in DOMAIN e.lo : e.lo[p]..e.hi[p] = Range(e.seen[p]))
    [] e.op = "PosCover" -> C("C12.positions", {Range(e.sets[x]) : x \in DOMAIN e.sets} = V!KSub(e.n, 1..e.len))
    [] e.op = "Exc"    -> {"X.exc"}
    [] OTHER -> {"X.unknown"}

Step(e) ==
  CASE e.op \in {"Setup", "Create"} -> [lo |-> e.lo, hi |-> e.hi, vs |-> e.vs]
    [] e.op \in {"XO", "Mut", "Custom"} -> [st EXCEPT !.vs = e.post]
    [] OTHER -> st

TInit == l = 1 /\ st = Zero
TNext == /\ l <= Len(Trace)
         /\ LET e == Trace[l] IN
              /\ Report(l, Check(e))
              /\ st' = Step(e)
         /\ l' = l + 1
TSpec == TInit /\ [][TNext]_<<l, st>>
====
