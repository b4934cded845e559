---- MODULE MCStats ----
EXTENDS Stats
M0 == {[f |-> f, size |-> s] : f \in {-8, 0, 8, INF, -INF}, s \in {1, 2, 5}}
====
