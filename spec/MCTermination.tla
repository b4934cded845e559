---- MODULE MCTermination ----
EXTENDS Termination
V2 == {1, 2}
V3 == {0, 1, 2}
====
