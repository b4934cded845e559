---- MODULE MCPersist ----
EXTENDS Persist
====
