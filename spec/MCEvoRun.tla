---- MODULE MCEvoRun ----
EXTENDS EvoRun
S3 == <<2, 1, 2>>
S2 == <<1, 3>>
S4 == <<2, 5, 2, -1>>
====
