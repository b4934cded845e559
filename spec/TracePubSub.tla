---- MODULE TracePubSub ----
EXTENDS TraceBase
P == INSTANCE PubSub WITH Events <- {}, Actions <- {}, MaxDepth <- 0, MaxSteps <- 0, MaxH <- 0, Bug <- "none",
       subs <- 0, act <- 0, stack <- 0, nexth <- 0, steps <- 0, ok <- 0
VARIABLES l, st

\* st.subs: event -> sequence of [h, c] (handle and callback); st.stack: frames [ev, left]
Evs == DOMAIN st.subs
Handles == UNION {{st.subs[e][i].h : i \in DOMAIN st.subs[e]} : e \in Evs}
Cs(s) == [i \in DOMAIN s |-> s[i].c]
Top == st.stack[Len(st.stack)]
Pop == SubSeq(st.stack, 1, Len(st.stack) - 1)
Has(e, h) == \E i \in DOMAIN st.subs[e] : st.subs[e][i].h = h
Pos(e, h) == CHOOSE i \in DOMAIN st.subs[e] : st.subs[e][i].h = h

Check(e) ==
  CASE e.op = "New" -> {}
    [] e.op = "Reg" -> IF e.ev \in Evs THEN C("C20.register", e.exc = "") \cup CI("C20.handle", e.exc = "", e.h \notin Handles)
                       ELSE C("C20.unknown", e.exc # "")
    [] e.op = "Unreg" -> CI("C20.unregister", e.ev \in Evs /\ Has(e.ev, e.h), e.exc = "")
    [] e.op = "PubB" -> {}
    [] e.op = "Call" -> IF st.stack = <<>> \/ Top.left = <<>> THEN {"C20.extra"}
                        ELSE C("C20.order", e.c = Top.left[1]) \cup C("C20.args", e.sender /\ e.data /\ e.ev = Top.ev)
    [] e.op = "PubX" -> {}
    [] e.op = "PubE" -> IF e.ev \notin Evs THEN C("C20.unknown", e.exc # "")
                        ELSE C("C20.missed", e.exc = "" /\ st.stack # <<>> /\ Top.left = <<>> /\ Top.ev = e.ev)
    \* an operator acting: before_operator, work, after_operator
    [] e.op = "ActB" -> {}
    [] e.op = "Work" -> C("C20.work", st.act = "before" /\ st.before = Cs(st.subs["before_operator"]) /\ st.after = <<>>)
    [] e.op = "ActCall" -> C("C20.actargs", e.sender)
    [] e.op = "ActE" -> IF e.bad THEN C("C20.arity", e.exc # "" /\ st.act = "before" /\ st.before = <<>>)
                        ELSE C("C20.act", e.exc = "" /\ st.act = "worked" /\ st.before = Cs(st.subs["before_operator"])
                                          /\ st.after = Cs(st.subs["after_operator"]) /\ e.ret) \cup
                             CI("C20.told", e.tells, \A i \in DOMAIN e.told : e.told[i] = e.want)
    [] e.op = "Exc" -> {"X.exc"}
    [] OTHER -> {"X.unknown"}
Step(e) ==
  CASE e.op = "New" -> [subs |-> [x \in Range(e.evs) |-> <<>>], stack |-> <<>>, act |-> "no", before |-> <<>>, after |-> <<>>]
    [] e.op = "Reg" -> IF e.ev \in Evs /\ e.exc = "" THEN [st EXCEPT !.subs[e.ev] = Append(@, [h |-> e.h, c |-> e.c])] ELSE st
    [] e.op = "Unreg" -> IF e.ev \in Evs /\ e.exc = "" /\ Has(e.ev, e.h)
                         THEN [st EXCEPT !.subs[e.ev] = P!Remove(@, Pos(e.ev, e.h))] ELSE st
    [] e.op = "PubB" -> [st EXCEPT !.stack = Append(@, [ev |-> e.ev, left |-> IF e.ev \in Evs THEN Cs(st.subs[e.ev]) ELSE <<>>])]
    [] e.op = "Call" -> IF st.stack = <<>> \/ Top.left = <<>> THEN st
                        ELSE [st EXCEPT !.stack[Len(st.stack)].left = Tail(@)]
    [] e.op \in {"PubE", "PubX"} -> IF st.stack = <<>> THEN st ELSE [st EXCEPT !.stack = Pop]
    [] e.op = "ActB" -> [st EXCEPT !.act = "before", !.before = <<>>, !.after = <<>>]
    [] e.op = "ActCall" -> IF e.ev = "before_operator" THEN [st EXCEPT !.before = Append(@, e.c)]
                           ELSE [st EXCEPT !.after = Append(@, e.c)]
    [] e.op = "Work" -> [st EXCEPT !.act = "worked"]
    [] OTHER -> st
TInit == l = 1 /\ st = [subs |-> <<>>, stack |-> <<>>, act |-> "no", before |-> <<>>, after |-> <<>>]
TNext == /\ l <= Len(Trace)
         /\ LET e == Trace[l] IN Report(l, Check(e)) /\ st' = Step(e)
         /\ l' = l + 1
TSpec == TInit /\ [][TNext]_<<l, st>>
====
