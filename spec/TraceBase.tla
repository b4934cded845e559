------------------------------ MODULE TraceBase ------------------------------
(* Common part of all trace specifications: the recorded trace, the total    *)
(* verdict (a set of names of violated clauses per line) and acceptance.     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)

\* clause name if the condition fails, nothing otherwise
C(name, cond) == IF cond THEN {} ELSE {name}
\* conditional clause
CI(name, guard, cond) == IF guard /\ ~cond THEN {name} ELSE {}

Report(l, bad) == IF bad = {} THEN TRUE ELSE PrintT("FAIL " \o ToString(l) \o " " \o ToString(bad))

Range(s) == {s[i] : i \in DOMAIN s}
=============================================================================
