---- MODULE FailRun ----
(* A run in which code of the user fails: at any of the sites where the run  *)
(* calls the user (creator, evaluator, selection, operator, random generator,*)
(* checker, statistics, subscribers).  The failure must reach the caller of  *)
(* evolve() as it is, the run must end there, and whatever was reached stays *)
(* as it was.                                                                *)
(* s: what an observer at the sites knows; i: the run itself (attributes).   *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS MaxGen, Scores, Bug
VARIABLES s, i
vars == <<s, i>>
NoBest == -1

\* ---------------------------------------------------------------- the observer
Sites == {"seed", "create", "evalB", "eval", "func", "evalA", "init", "check", "stat", "after", "breedB", "select", "op", "breedA", "fin"}
Start == [site |-> "", gen |-> 0, best |-> NoBest, batch |-> NoBest, shown |-> 0, failed |-> ""]
Max2(a, b) == IF a > b THEN a ELSE b
\* sites at which the evaluation of the generation under way is over
Settled == {"init", "check", "stat", "after", "seed", "breedB", "fin"}
Shows == {"init", "check", "stat", "after"}
\* the observer is called at a site; v: the score of an evaluation, p: the population it is shown (a code, 0 if not)
At(x, site, v, p) ==
  LET settle == site \in Settled /\ x.batch # NoBest
      b == IF settle THEN Max2(x.best, x.batch) ELSE x.best
  IN [x EXCEPT !.site = site,
               !.gen = IF site = "breedB" /\ x.site # "breedB" THEN @ + 1 ELSE @,
               !.best = b,
               !.batch = IF settle THEN NoBest ELSE IF site = "eval" THEN Max2(@, v) ELSE @,
               !.shown = IF site \in Shows THEN p ELSE IF site \in {"breedA", "evalB", "eval", "func", "evalA"} THEN 0 ELSE @]
Fails(x) == [x EXCEPT !.failed = x.site]

\* ------------------------------------------------- what must hold when it is over
\* a further call after the failure: only of what was asked for together with what failed
Together(a, b) == a = b \/ {a, b} \subseteq {"stat", "after"} \/ {a, b} \subseteq {"eval", "func"}
MayFollow(x, site) == x.failed = "" \/ Together(x.failed, site)
BestOk(x, b) == \/ b = x.best
                \/ x.failed = "evalA" /\ b = Max2(x.best, x.batch)
GenOk(x, g) == g = x.gen \/ (x.failed = "seed" /\ g = x.gen + 1 /\ x.best # NoBest)
\* the last generation that was executed
FinalOk(x, f) ==
  LET before == IF x.gen = 0 THEN 0 ELSE x.gen - 1 IN
  CASE x.failed \in {"stat", "after", "fin", "seed", ""} -> f = x.gen
    [] x.failed = "check" -> f \in {before, x.gen}
    [] OTHER -> f = before
IntactOk(x, p) == x.shown # 0 => p = x.shown

\* ---------------------------------------------------------------------- the run
Fresh == [pc |-> "seed", gen |-> 0, fin |-> 0, best |-> NoBest, batch |-> NoBest, pop |-> 0, new |-> 0, called |-> FALSE, done |-> FALSE, raised |-> FALSE]
Init == s = Start /\ i = Fresh

Succ(x) ==
  CASE x.pc = "seed" -> IF x.pop = 0 THEN {"create"} ELSE {"breedB"}
    [] x.pc = "create" -> {"evalB"}
    [] x.pc = "evalB" -> {"func"}
    [] x.pc = "func" -> {"eval"}
    [] x.pc = "eval" -> {"func", "evalA"}
    [] x.pc = "evalA" -> IF x.gen = 0 THEN {"init"} ELSE {"check"}
    [] x.pc = "init" -> {"check"}
    [] x.pc = "check" -> {"stat"}
    [] x.pc = "stat" -> {"after"}
    [] x.pc = "after" -> {"fin"} \cup (IF x.gen < MaxGen THEN {"seed"} ELSE {})
    [] x.pc = "breedB" -> {"select"}
    [] x.pc = "select" -> {"op"}
    [] x.pc = "op" -> {"breedA"}
    [] x.pc = "breedA" -> {"evalB"}
    [] OTHER -> {}

\* what the run does between the site x.pc and the next one
Work(x, to, v) ==
  LET y == CASE x.pc = "seed" /\ to = "create" -> [x EXCEPT !.pop = 1]
             [] x.pc = "eval" -> [x EXCEPT !.best = IF Bug = "best_early" THEN Max2(@, v) ELSE @]
             [] x.pc = "evalA" -> [x EXCEPT !.best = IF Bug = "best_late" THEN @ ELSE Max2(@, x.batch), !.batch = IF Bug = "best_late" THEN @ ELSE NoBest, !.fin = IF x.gen > 0 THEN x.gen ELSE 0]
             [] x.pc = "stat" -> [x EXCEPT !.best = Max2(@, x.batch), !.batch = NoBest]
             [] x.pc = "select" -> [x EXCEPT !.new = x.pop + 1, !.pop = IF Bug = "half_bred" THEN x.pop + 1 ELSE @]
             [] x.pc = "op" -> [x EXCEPT !.pop = x.new]
             [] OTHER -> x
  IN [y EXCEPT !.pc = to, !.called = FALSE, !.gen = IF to = "seed" THEN @ + 1 ELSE @, !.fin = IF to = "seed" /\ Bug = "counted" THEN x.gen + 1 ELSE @]

\* the observer at the current site of the run
Seen(x, y, v) == At(x, y.pc, v, y.pop)
Live == ~i.done /\ s.failed = ""
Call == /\ Live /\ ~i.called
        /\ \E v \in Scores :
             /\ s' = Seen(s, i, v)
             /\ i' = [i EXCEPT !.called = TRUE, !.batch = IF i.pc = "eval" THEN Max2(@, v) ELSE @]
Go == /\ Live /\ i.called
      /\ \/ \E to \in Succ(i) : i' = Work(i, to, i.batch)
         \/ i.pc = "fin" /\ i' = [i EXCEPT !.done = TRUE]
      /\ UNCHANGED s
Fail == /\ Live /\ i.called
        /\ s' = Fails(s)
        /\ IF Bug = "swallow" /\ i.pc \in {"stat", "after"} THEN i' = [i EXCEPT !.done = TRUE]
           ELSE i' = [i EXCEPT !.done = TRUE, !.raised = TRUE]
Next == Call \/ Go \/ Fail
Spec == Init /\ [][Next]_vars

TypeOK == s.site \in Sites \cup {""} /\ s.gen \in 0..MaxGen /\ i.gen \in 0..MaxGen
Reaches == i.done => (i.raised <=> s.failed # "")
Best == i.done => BestOk(s, i.best)
Gen == i.done => GenOk(s, i.gen)
Final == i.done => FinalOk(s, i.fin)
Intact == i.done => IntactOk(s, i.pop)
====
