---- MODULE MCInitPop ----
EXTENDS InitPop
W3 == <<2, 0, 1>>
====
