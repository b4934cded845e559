---- MODULE TraceGPFun ----
EXTENDS TraceBase
F == INSTANCE GPFun WITH D <- {}, Bug <- "none", x <- 0
VARIABLES l, st
Call(e) ==
  LET o == F!Op(e.f) IN
  IF o \in F!Choices THEN C("C25.choice", e.r = F!Choice(o, e.a, e.z))
  ELSE IF o \in F!Truths THEN C("C25.truth", e.ri = F!Truth(o, e.a, e.z))
  ELSE IF o \in F!Protected
  THEN IF F!Branch(o, e.t) = "zero" THEN C("C25.protected", e.zero) ELSE C("C25.plain", e.plain)
  ELSE C("C25.value", e.plain) \cup
       CI("C25.exact", o \in F!Exacts /\ e.small, (IF o = "mul" THEN e.r64 ELSE e.r8) = F!Exact(o, e.a8)) \cup
       CI("C25.op", TRUE, o # "unknown")
Check(e) ==
  CASE e.op = "Call" -> Call(e)
    [] e.op = "Nan" ->
        LET o == F!Op(e.f) IN
        IF ~F!NanJudged(o, e.n) THEN {}
        ELSE IF o \in {"max", "min"} THEN C("C25.nan", e.rn = e.swapped /\ ((\A i \in DOMAIN e.n : e.n[i]) => e.rn))
        ELSE C("C25.nan", e.rn = F!NanResult(o, e.a, e.z, e.n, e.t))
    [] e.op = "Raised" -> {"C25.raised"}
    [] e.op = "Shape" -> {"C25.shape"}
    [] e.op = "Frame" -> C("C25.frame", e.same) \cup C("C25.alias", ~e.alias)
    [] e.op = "Exc" -> {"X.exc"}
    [] OTHER -> {"X.unknown"}
TInit == l = 1 /\ st = 0
TNext == /\ l <= Len(Trace)
         /\ LET e == Trace[l] IN Report(l, Check(e)) /\ st' = st
         /\ l' = l + 1
TSpec == TInit /\ [][TNext]_<<l, st>>
====
