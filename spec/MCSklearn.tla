---- MODULE MCSklearn ----
EXTENDS Sklearn
OutV == <<<<0, 1, 0>>, <<1, 1, 0>>, <<0, 0, 1>>>>
TargetV == <<[x |-> <<1, 2>>, y |-> <<0, 1>>], [x |-> <<2, 3>>, y |-> <<1, 1>>]>>
====
