---- MODULE TraceTermination ----
EXTENDS TraceBase
T == INSTANCE Termination WITH Vals <- {0}, K <- 1, MaxGen <- 0, Opt <- 0, Thr <- 0, Bug <- "none",
       gen <- 0, hist <- 0, cur <- 0, last <- 0, cnt <- 0, asked <- 0, stop <- 0, running <- 0
VARIABLES l, st

\* the pure fitness of the best of every subpopulation (the driver makes it unambiguous)
Best(e) == [s \in DOMAIN e.pops |-> LET B == T!BestPures(e.pops[s].inds, e.pops[s].hib)
                                    IN CHOOSE x \in B : TRUE]
Unique(e) == \A s \in DOMAIN e.pops : Cardinality(T!BestPures(e.pops[s].inds, e.pops[s].hib)) = 1

Check(e) ==
  CASE e.op = "New" -> {}
    [] e.op = "Thr" -> C("C07.threshold", e.ans = T!ThrFires(e.best, e.opt, e.thr))
    [] e.op = "Stag" -> C("X.driver", Unique(e)) \cup
                        C("C07.stagnation", e.ans = T!StagFires(Append(st.hist, Best(e)), e.k))
    [] e.op = "Crowd" -> C("C07.crowding", e.ans = T!CrowdFires(e.cs, e.thr))
    [] e.op = "Exc" -> {"X.exc"}
    [] OTHER -> {"X.unknown"}
Step(e) == CASE e.op = "New" -> [hist |-> <<>>]
             [] e.op = "Stag" -> [hist |-> Append(st.hist, Best(e))]
             [] OTHER -> st
TInit == l = 1 /\ st = [hist |-> <<>>]
TNext == /\ l <= Len(Trace)
         /\ LET e == Trace[l] IN Report(l, Check(e)) /\ st' = Step(e)
         /\ l' = l + 1
TSpec == TInit /\ [][TNext]_<<l, st>>
====
