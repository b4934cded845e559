---- MODULE TraceReuse ----
(* Uses of real components that have been used before, next to the same use  *)
(* of a new one of the same configuration.                                   *)
EXTENDS TraceBase
R == INSTANCE Reuse WITH Comps <- {1}, Ins <- {1}, Draws <- {1}, Conf <- <<1>>, MaxUse <- 1, Bug <- "none", mem <- 0, glob <- 0, log <- <<>>
VARIABLES l, st     \* st: the uses so far, as entries of Reuse's log (one configuration: 1)

\* both the use of the used component and that of the new one are uses of the same configuration
Entries(e) == <<[c |-> 1, i |-> e.key, d |-> 0, out |-> <<e.new>>], [c |-> 1, i |-> e.key, d |-> 0, out |-> <<e.out>>]>>
Agree1(log, m) == \A n \in DOMAIN log : log[n].i = m.i => log[n].out = m.out
RECURSIVE Put(_, _)
Put(log, es) == IF es = <<>> THEN log ELSE Put(IF \E n \in DOMAIN log : log[n] = es[1] THEN log ELSE Append(log, es[1]), Tail(es))
Check(e) ==
  CASE e.op = "Cfg" -> {}
    [] e.op = "Use" -> C("C34.asnew", e.out = e.new) \cup
                       C("C34.agree", LET es == Entries(e) IN IF e.out = e.new THEN Agree1(st, es[1]) ELSE TRUE)
    [] e.op = "Exc" -> {"X.exc"}
    [] OTHER -> {"X.unknown"}
TInit == l = 1 /\ st = <<>>
TNext == /\ l <= Len(Trace)
         /\ LET e == Trace[l] IN
              /\ Report(l, Check(e))
              /\ st' = IF e.op = "Cfg" THEN <<>> ELSE IF e.op = "Use" THEN Put(st, Entries(e)) ELSE st
         /\ l' = l + 1
TSpec == TInit /\ [][TNext]_<<l, st>>
====
