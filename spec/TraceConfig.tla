---- MODULE TraceConfig ----
EXTENDS TraceBase
M == INSTANCE Config WITH Comps <- {}, Sizes <- {}, Emit <- FALSE, Bug <- "none", comp <- 0, opts <- 0, todo <- 0, verdict <- 0
VARIABLES l, st
Check(e) ==
  CASE e.op = "Build" -> LET v == M!Valid(e.comp, e.o) IN
         CI("C26.accepted-" \o e.comp, ~v, e.exc # "") \cup CI("C26.refused-" \o e.comp, v, e.exc = "" /\ e.later = "")
    [] e.op = "Exc" -> {"X.exc"}
    [] OTHER -> {"X.unknown"}
TInit == l = 1 /\ st = 0
TNext == /\ l <= Len(Trace)
         /\ LET e == Trace[l] IN Report(l, Check(e)) /\ st' = st
         /\ l' = l + 1
TSpec == TInit /\ [][TNext]_<<l, st>>
====
