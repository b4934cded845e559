------------------------------ MODULE Sklearn ------------------------------
(* The scikit-learn estimators: what fit evaluates against, what predict      *)
(* answers, in any sequence of predict, fit, pickle and clone.                *)
EXTENDS Integers, Sequences, FiniteSets, TLC

\* the label of a probability p/d among n classes: the number of thresholds k/n that it reaches
Label(p, d, n) == Cardinality({k \in 1..(n - 1) : p * n >= k * d})
\* the same with the thresholds given as numbers (or ranks)
Reached(p, thr) == Cardinality({k \in DOMAIN thr : p >= thr[k]})

CONSTANTS Ests, Data, Genomes, Queries, Out, Target, Bug
\* Out[g][x]: output of genome g on x;  Target[d] = [x, y]: what dataset d asks for
VARIABLES est,   \* estimator -> [there, fitted, ctx, best, seen (genomes evaluated), d (data of its fit)]
          last   \* the latest answer
vars == <<est, last>>
None == [there |-> FALSE, fitted |-> FALSE, ctx |-> 0, best |-> 0, seen |-> {}, d |-> 0]
First == CHOOSE e \in Ests : \A f \in Ests : e <= f
\* an evaluator may be constructed with some data already
Init == /\ \E c \in Data \cup {0} : est = [e \in Ests |-> IF e = First THEN [None EXCEPT !.there = TRUE, !.ctx = c] ELSE None]
        /\ last = [k |-> "none", e |-> 0, x |-> 0, v |-> 0]

Score(g, d) == Cardinality({i \in DOMAIN Target[d].x : Out[g][Target[d].x[i]] = Target[d].y[i]})
Argmax(S, d) == {g \in S : \A h \in S : Score(g, d) >= Score(h, d)}

Fit(e, d) == /\ est[e].there /\ ~est[e].fitted
             /\ \E S \in SUBSET Genomes : S # {} /\
                LET c == IF Bug = "keeps_context" /\ est[e].ctx # 0 THEN est[e].ctx ELSE d IN
                \E b \in (IF Bug = "last" THEN S ELSE Argmax(S, c)) :
                  est' = [est EXCEPT ![e] = [@ EXCEPT !.fitted = TRUE, !.ctx = c, !.best = b, !.seen = S, !.d = d]]
             /\ last' = [k |-> "none", e |-> 0, x |-> 0, v |-> 0]
Predict(e, x) == /\ est[e].there
                 /\ IF ~est[e].fitted THEN /\ last' = [k |-> "error", e |-> e, x |-> x, v |-> 0] /\ UNCHANGED est
                    ELSE /\ last' = [k |-> "answer", e |-> e, x |-> x,
                                     v |-> IF Bug = "train_x" THEN Out[est[e].best][Target[est[e].ctx].x[1]] ELSE Out[est[e].best][x]]
                         /\ est' = est
Pickle(e, f) == /\ est[e].there /\ ~est[f].there
                /\ est' = [est EXCEPT ![f] = IF Bug = "forgets" THEN [est[e] EXCEPT !.fitted = FALSE] ELSE est[e]]
                /\ UNCHANGED last
\* cloning an estimator that is not fitted
Clone(e, f) == est[e].there /\ ~est[f].there /\ ~est[e].fitted /\ est' = [est EXCEPT ![f] = est[e]] /\ UNCHANGED last
Next == \E e \in Ests : \/ \E d \in Data : Fit(e, d)
                        \/ \E x \in Queries : Predict(e, x)
                        \/ \E f \in Ests : Pickle(e, f) \/ Clone(e, f)
Spec == Init /\ [][Next]_vars

Answers == last.k = "answer" => LET r == est[last.e] IN
             \E b \in Argmax(r.seen, r.d) : b = r.best /\ last.v = Out[b][last.x]
Errors == last.k = "error" => est[last.e].seen = {}
\* copies answer alike
Alike == \A e, f \in Ests : est[e].there /\ est[f].there /\ est[e].seen # {} /\ est[e].best = est[f].best => est[f].fitted = est[e].fitted
\* the slices are equal, cover everything and are ordered
D == 60
Slices == \A n \in 1..6 : /\ \A p \in 0..D : Label(p, D, n) \in 0..(n - 1)
                          /\ \A p \in 0..(D - 1) : Label(p, D, n) <= Label(p + 1, D, n)
                          /\ \A k \in 0..(n - 1) : Cardinality({p \in 0..(D - 1) : Label(p, D, n) = k}) = D \div n
                          /\ \A p \in 0..(D - 1) : Label(p, D, n) = (p * n) \div D
                          /\ Label(D, D, n) = n - 1
ASSUME Slices
=============================================================================
