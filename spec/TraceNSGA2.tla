---- MODULE TraceNSGA2 ----
EXTENDS TraceBase
G == INSTANCE NSGA2 WITH Vals <- {}, K <- 0, M <- 0, N <- 0, Dir <- <<>>, Bug <- "none",
       P <- 0, cnt <- 0, doms <- 0, src <- 0, dest <- 0, rank <- 0, f <- 0, pc <- 0
VARIABLES l, st

\* survivor selection: e.P points, e.dir, e.n, e.chosen (indices into P), e.rk / e.cr per source individual
CheckSel(e) ==
  LET ch == Range(e.chosen)  fr == G!Fronts(e.P, e.dir) IN
  C("C18.identity", e.own /\ Cardinality(ch) = Len(e.chosen) /\ ch \subseteq DOMAIN e.P) \cup
  C("C18.unmodified", e.same) \cup
  C("C18.size", Len(e.chosen) = e.n) \cup
  (IF ~(ch \subseteq DOMAIN e.P) THEN {} ELSE
   C("C18.fronts", G!SurvivorsOk(e.P, e.dir, e.n, ch)) \cup
   C("C18.dominated", \A i \in ch, j \in DOMAIN e.P \ ch : ~G!Dominates(e.P[j], e.P[i], e.dir)) \cup
   C("C18.rank", \A i \in ch : e.rk[i] = G!RankOf(fr, i)) \cup
   (IF ~e.crowd THEN {} ELSE
    C("C18.crowding", \A f \in DOMAIN fr : /\ \A i \in fr[f] \cap ch : e.cr[i] \in G!Crowdings(e.P, fr[f], i)
                                           /\ (fr[f] \subseteq ch => G!CrowdingOk(e.P, fr[f], e.cr))) \cup
    C("C18.crowded", G!CrowdedOk(e.P, e.dir, ch, e.cr))))
Check(e) ==
  CASE e.op = "Sel" -> CheckSel(e)
    [] e.op = "Front" -> C("C18.firstfront", e.ok)
    [] e.op = "Dom" -> IF e.bad THEN C("C19.domerror", e.exc # "")
                       ELSE C("C19.dominance", e.exc = "" /\ e.ans = G!Dominates(e.a, e.b, e.dir))
    [] e.op = "Cmp" -> IF e.bad THEN C("C19.cmperror", e.exc # "")
                       ELSE C("C19.crowded", e.exc = "" /\ e.ans = G!CrowdedBetter(e.r1, e.c1, e.r2, e.c2))
    [] e.op = "Equal" -> C("C19.equal", e.exc = "" /\ e.ans = (e.r1 = e.r2 /\ e.c1 = e.c2))
    [] e.op = "Exc" -> {"X.exc"}
    [] OTHER -> {"X.unknown"}
TInit == l = 1 /\ st = 0
TNext == l <= Len(Trace) /\ Report(l, Check(Trace[l])) /\ l' = l + 1 /\ UNCHANGED st
TSpec == TInit /\ [][TNext]_<<l, st>>
====
