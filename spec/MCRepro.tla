---- MODULE MCRepro ----
EXTENDS Repro
====
