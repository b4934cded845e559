---- MODULE MCConfig ----
EXTENDS Config
All == {"subpop", "algo", "run", "vec", "tree", "fail", "meth"}
Mild == {"subpop", "run", "vec", "fail", "meth"}
====
