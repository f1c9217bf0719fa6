------------------------------ MODULE Tracing -------------------------------
(* Input and verdict of all trace specifications. A trace specification     *)
(* defines InitState(cfg), Failed(s, e) and Apply(s, e): the set of clauses *)
(* event e violates in state s and the next state; the first failing event  *)
(* of a trace ends it with the names of the clauses.                        *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACE_FILE)

(* What went wrong in the code under test itself *)
CrashFailed(e) ==
  CASE e.ev = "raise" -> {"raised-exception"}
    [] e.ev = "hang" -> {"does-not-terminate"}
    [] e.ev = "died" -> {"process-died"}
    [] OTHER -> {"unknown-event"}
IsCrash(e) == e.ev \in {"raise", "hang", "died"}

Has(r, f) == f \in DOMAIN r
Verdict(t, i, bad) == PrintT("VERDICT " \o ToJson([t |-> t, i |-> i, bad |-> bad]))
=============================================================================
