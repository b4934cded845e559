---- MODULE MCNSGA2 ----
EXTENDS NSGA2
DirV == <<TRUE, FALSE>>
DirW == <<TRUE, FALSE, FALSE>>
====
