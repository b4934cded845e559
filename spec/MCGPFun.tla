---- MODULE MCGPFun ----
EXTENDS GPFun
DV == -2..2
DW == -4..4
====
