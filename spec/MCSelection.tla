---- MODULE MCSelection ----
EXTENDS Selection
FV == 0..2
FW == 0..3
====
