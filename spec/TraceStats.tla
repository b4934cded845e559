---- MODULE TraceStats ----
EXTENDS TraceBase
S == INSTANCE Stats WITH Members <- {}, N <- 1, Hib <- TRUE, W <- 0, Bug <- "none", pop <- 0, rep <- 0, pre <- 0, ph <- 0
M == INSTANCE NSGA2 WITH Vals <- {}, K <- 0, M <- 0, N <- 0, Dir <- <<>>, Bug <- "none",
       P <- 0, cnt <- 0, doms <- 0, src <- 0, dest <- 0, rank <- 0, f <- 0, pc <- 0
VARIABLES l, st
Check(e) ==
  CASE e.op = "Stat" ->
         C("C23.generation", e.gens = <<e.gen>>)
         \cup C("C23.subpopulations", e.subs = [i \in 1..Len(e.pops) |-> i - 1] /\ Len(e.reps) = Len(e.pops))
         \cup IF Len(e.reps) # Len(e.pops) THEN {} ELSE UNION {
           LET p == e.pops[j]  r == e.reps[j]  h == e.hib[j] IN
           C("C23.best", \E i \in S!BestSet(p, e.w, h) : p[i].f = r.b)
           \cup C("C23.worst", \E i \in S!WorstSet(p, e.w, h) : p[i].f = r.w)
           \cup C("C23.mean", S!MeanOk(S!Pure(p), r.m))
           \cup CI("C23.size", e.k = 4, S!MeanOk(S!Sizes(p), r.s)) : j \in DOMAIN e.pops}
    [] e.op = "Query" ->
         C("C23.query", /\ e.b \in S!BestSet(e.pop, e.w, e.hib) /\ e.wo \in S!WorstSet(e.pop, e.w, e.hib)
                        /\ e.pb \in S!BestSet(e.pop, e.w, e.hib) /\ e.pw \in S!WorstSet(e.pop, e.w, e.hib)
                        /\ S!MeanOk(S!Pure(e.pop), e.m) /\ S!MeanOk(S!Pure(e.pop), e.pm)
                        /\ \A i \in DOMAIN e.counts : e.counts[i] = e.nsub)
    [] e.op = "Label" -> C("C23.generation", e.gens = <<e.gen>>)
    [] e.op = "Find" -> C("C23.query", e.ok /\ e.has)
    [] e.op = "Frame" -> C("C23.changes_nothing", e.same)
    [] e.op = "Count" -> C("C23.every_generation", e.told = e.gens)
    [] e.op = "Moe" ->
         C("C23.generation", e.gens = <<e.gen>>)
         \cup C("C23.subpopulations", e.subs = [i \in 1..Len(e.pops) |-> i - 1] /\ Len(e.reps) = Len(e.pops))
         \cup IF Len(e.reps) # Len(e.pops) THEN {} ELSE UNION {
           LET p == e.pops[j]  r == e.reps[j]  f == M!Fronts(p, e.dir)  n == Cardinality(f[1]) IN
           C("C23.fronts", e.fronts[j] = Len(f))
           \cup C("C23.first_front", r.n = n /\ S!Abs(r.pct * Len(p) - 1000 * n) * 2 <= Len(p) + 1)
           \cup C("C23.corners", Range(r.first) = S!Corners(p, f[1]) /\ Len(r.first) = Cardinality(Range(r.first)))
           \cup C("C23.last_corners", Range(r.last) = S!Corners(p, f[Len(f)]) /\ Len(r.last) = Cardinality(Range(r.last)))
           : j \in DOMAIN e.pops}
    [] e.op = "Exc" -> {"X.exc"}
    [] OTHER -> {"X.unknown"}
TInit == l = 1 /\ st = 0
TNext == /\ l <= Len(Trace)
         /\ Report(l, Check(Trace[l])) /\ st' = 0
         /\ l' = l + 1
TSpec == TInit /\ [][TNext]_<<l, st>>
====
