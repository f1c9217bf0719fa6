----------------------------- MODULE KeyIdsTrace ----------------------------
(* The ids in chunk streams whose mixture is replaced again and again.      *)
EXTENDS KeyIds, Tracing

InitState(cfg) == <<>>

Failed(s, e) ==
  IF IsCrash(e) THEN CrashFailed(e) ELSE
  CASE e.ev = "chunk" -> KeyIdsFailed(s, e.kids)
    [] e.ev \in {"mix", "none", "end", "limit"} -> {}
    [] OTHER -> {"unknown-event"}

Apply(s, e) == IF e.ev = "chunk" THEN AddKids(s, e.kids) ELSE s

VARIABLES t, i, s, bad
INSTANCE TraceMachine
=============================================================================
