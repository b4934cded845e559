------------------------------- MODULE PubSub -------------------------------
(* Publish/subscribe with callbacks that may register, unregister and publish *)
(* from inside.  A publication is a stack frame holding the subscribers at    *)
(* the moment it began (want) and those called so far (got).                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Remove(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
IndexOf(s, x) == CHOOSE i \in DOMAIN s : s[i] = x
In(s, x) == \E i \in DOMAIN s : s[i] = x
Prefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a

CONSTANTS Events, Actions, MaxDepth, MaxSteps, MaxH, Bug
VARIABLES subs,    \* event -> sequence of handles
          act,     \* handle -> what its callback does when called
          stack,   \* frames [ev, want, got, pos]
          nexth, steps, ok
vars == <<subs, act, stack, nexth, steps, ok>>

Init == /\ subs = [e \in Events |-> <<>>] /\ act = <<>> /\ stack = <<>> /\ nexth = 1 /\ steps = 0 /\ ok = TRUE

Handle == IF Bug = "reuse" THEN 1 + Cardinality(UNION {{subs[e][i] : i \in DOMAIN subs[e]} : e \in Events}) ELSE nexth
Register(e, a) == /\ nexth <= MaxH
                  /\ ok' = (ok /\ \A x \in Events : ~In(subs[x], Handle))
                  /\ subs' = [subs EXCEPT ![e] = Append(@, Handle)]
                  /\ act' = [h \in (DOMAIN act) \cup {Handle} |-> IF h = Handle THEN a ELSE act[h]]
                  /\ nexth' = nexth + 1
Unregister(e, h) == /\ In(subs[e], h)
                    /\ subs' = [subs EXCEPT ![e] = Remove(@, IndexOf(@, h))]
                    /\ UNCHANGED <<act, nexth, ok>>
Frame(e) == [ev |-> e, want |-> subs[e], got |-> <<>>, pos |-> 1]

\* the top frame calls its next subscriber, whose callback acts
Top == stack[Len(stack)]
List(f) == IF Bug = "live" THEN subs[f.ev] ELSE f.want
Call == /\ stack # <<>> /\ Top.pos <= Len(List(Top))
        /\ LET h == List(Top)[IF Bug = "lifo" THEN Len(List(Top)) + 1 - Top.pos ELSE Top.pos]
               called == [stack EXCEPT ![Len(stack)] = [@ EXCEPT !.pos = @ + 1, !.got = Append(@, h)]]
               a == IF h \in DOMAIN act THEN act[h] ELSE [do |-> "none"] IN
           CASE a.do = "unreg" /\ In(subs[a.ev], a.h) -> /\ Unregister(a.ev, a.h) /\ stack' = called
             [] a.do = "unself" /\ In(subs[Top.ev], h) -> /\ Unregister(Top.ev, h) /\ stack' = called
             [] a.do = "reg" /\ nexth <= MaxH -> /\ Register(a.ev, [do |-> "none"]) /\ stack' = called
             [] a.do = "pub" /\ Len(stack) < MaxDepth -> /\ stack' = Append(called, Frame(a.ev)) /\ UNCHANGED <<subs, act, nexth, ok>>
             [] OTHER -> stack' = called /\ UNCHANGED <<subs, act, nexth, ok>>
        /\ UNCHANGED steps
Return == /\ stack # <<>> /\ Top.pos > Len(List(Top))
          /\ ok' = (ok /\ Top.got = Top.want)             \* everybody was called, in order, once
          /\ stack' = SubSeq(stack, 1, Len(stack) - 1)
          /\ UNCHANGED <<subs, act, nexth, steps>>
Main == /\ stack = <<>> /\ steps < MaxSteps /\ steps' = steps + 1
        /\ \/ \E e \in Events, a \in Actions : Register(e, a) /\ UNCHANGED stack
           \/ \E e \in Events : \E h \in {subs[e][i] : i \in DOMAIN subs[e]} : Unregister(e, h) /\ UNCHANGED stack
           \/ \E e \in Events : stack' = <<Frame(e)>> /\ UNCHANGED <<subs, act, nexth, ok>>
Next == Call \/ Return \/ Main
Spec == Init /\ [][Next]_vars /\ WF_vars(Call \/ Return)

Delivered == ok
InOrder == \A i \in DOMAIN stack : Prefix(stack[i].got, stack[i].want)
Quiesces == <>[](stack = <<>>)
=============================================================================
