---- MODULE MCBinding ----
EXTENDS Binding
TV == {"int", "float"}
====
