---- MODULE TraceRepro ----
EXTENDS TraceBase
P == INSTANCE Repro WITH Seeds <- {}, Mod <- 7, N <- 1, MaxGen <- 1, Bug <- "none", seed <- 0, gseed <- 0, rng <- 0, pop <- 0,
       fit <- 0, todo <- 0, ph <- 0, gen <- 0, hist <- 0, noise <- 0, global <- 0
VARIABLES l, st
Check(e) ==
  CASE e.op = "Run" ->
         C("C05.ran", e.ok) \cup
         (IF ~e.first /\ e.cfg = st.cfg
          THEN C("C05.same", P!Agree(e.hist, st.hist)) \cup C("C05.length", Len(e.hist) = Len(st.hist)) ELSE {})
    [] e.op = "Exc" -> {"X.exc"}
    [] OTHER -> {"X.unknown"}
Step(e) == IF e.op # "Run" THEN st
           ELSE IF e.first \/ e.cfg # st.cfg THEN [cfg |-> e.cfg, hist |-> e.hist] ELSE st
TInit == l = 1 /\ st = [cfg |-> -1, hist |-> <<>>]
TNext == /\ l <= Len(Trace)
         /\ LET e == Trace[l] IN Report(l, Check(e)) /\ st' = Step(e)
         /\ l' = l + 1
TSpec == TInit /\ [][TNext]_<<l, st>>
====
