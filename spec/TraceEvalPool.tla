---- MODULE TraceEvalPool ----
EXTENDS TraceBase
P == INSTANCE EvalPool WITH N <- 1, W <- 1, Rounds <- 1, Bug <- "none", Emit <- FALSE, genome <- 0, fit <- 0, queue <- 0,
       running <- 0, done <- 0, failing <- 0, counts <- 0, phase <- 0, raised <- 0, round <- 0, hist <- 0
VARIABLES l, st
NONE == -999999999
Count(s, x) == Cardinality({k \in DOMAIN s : s[k] = x})

Check(e) ==
  CASE e.op = "Pool" -> {}
    [] e.op = "Result" ->
         C("C04.raises", (e.exc # "") <=> (e.failing # <<>>)) \cup
         CI("C04.which", e.exc # "", e.who \in Range(e.failing)) \cup
         C("C04.frame", e.frame) \cup
         \* an evaluated individual carries its own score or the one it had before this evaluation
         CI("C04.score", e.exc = "", e.fits = e.scores) \cup
         CI("C04.partial", e.exc # "", \A i \in DOMAIN e.fits : e.fits[i] \in {NONE, e.scores[i]} \cup st) \cup
         CI("C04.once", e.counted, IF e.exc = "" THEN Len(e.calls) = e.n /\ Range(e.calls) = 1..e.n
                                        ELSE Cardinality(Range(e.calls)) = Len(e.calls) /\ Range(e.calls) \subseteq 1..e.n) \cup
         CI("C04.best", e.exc = "", e.best \in 1..e.n /\ P!NoBetter(e.best, P!Augmented(e.scores, e.w8, e.sizes, e.hib), e.hib))
    [] e.op = "Single" -> C("C04.single", e.fits = [e.before EXCEPT ![e.i] = e.score] /\ e.ret /\ e.calls = 1)
    [] e.op = "Nested" -> C("C04.nested", e.bad = <<>>)
    [] e.op = "RunFails" ->
         C("C04.runraises", (e.exc # "") <=> e.due) \cup C("C04.runfinished", e.finished = IF e.due THEN 0 ELSE 1) \cup
         CI("C04.runevals", ~e.due, e.evals = e.want) \cup CI("C04.runboom", e.due, e.exc = "Boom")
    [] e.op = "Exc" -> {"X.exc"}
    [] OTHER -> {"X.unknown"}
\* st: scores given out earlier in the episode
Step(e) == IF e.op = "Result" THEN st \cup Range(e.scores) ELSE IF e.op = "Pool" THEN {} ELSE st
TInit == l = 1 /\ st = {}
TNext == /\ l <= Len(Trace)
         /\ LET e == Trace[l] IN Report(l, Check(e)) /\ st' = Step(e)
         /\ l' = l + 1
TSpec == TInit /\ [][TNext]_<<l, st>>
====
