---- MODULE MCFailRun ----
EXTENDS FailRun
====
