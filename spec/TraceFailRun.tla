---- MODULE TraceFailRun ----
(* Real runs in which one call of the user's code raised, judged by what     *)
(* FailRun says of a run that ended there.                                   *)
EXTENDS TraceBase
F == INSTANCE FailRun WITH MaxGen <- 1, Scores <- {1}, Bug <- "none", s <- 0, i <- 0
VARIABLES l, st

\* scores are given so that more is better; ranks are at least 0
Move(e) == F!At(st, e.site, IF e.site = "eval" THEN e.v ELSE 0, IF e.site \in F!Shows THEN e.pop ELSE 0)
Check(e) ==
  CASE e.op = "Cfg" -> {}
    [] e.op = "Site" -> C("C37.stops", F!MayFollow(st, e.site))
    [] e.op = "Fail" -> {}
    [] e.op = "End" ->
         C("C37.reaches", (st.failed # "") <=> e.raised) \cup
         CI("C37.same", e.raised, e.same) \cup
         C("C37.best", e.nsga \/ (F!BestOk(st, e.best) /\ e.best = e.truth)) \cup
         C("C37.gen", F!GenOk(st, e.gen)) \cup
         C("C37.final", F!FinalOk(st, e.final)) \cup
         C("C37.intact", e.nsga \/ F!IntactOk(st, e.pop)) \cup
         CI("C37.fitted", e.sk, e.fitted = ~e.raised)
    [] e.op = "Exc" -> {"X.exc"}
    [] OTHER -> {"X.unknown"}
TInit == l = 1 /\ st = F!Start
TNext == /\ l <= Len(Trace)
         /\ LET e == Trace[l] IN
              /\ Report(l, Check(e))
              /\ st' = CASE e.op = "Cfg" -> F!Start
                         [] e.op = "Site" /\ st.failed = "" -> Move(e)
                         [] e.op = "Fail" -> F!Fails([st EXCEPT !.site = e.site])
                         [] OTHER -> st
         /\ l' = l + 1
TSpec == TInit /\ [][TNext]_<<l, st>>
====
