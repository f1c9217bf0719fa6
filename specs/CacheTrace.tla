----------------------------- MODULE CacheTrace -----------------------------
EXTENDS Cache, Tracing
InitState(cfg) == NewCache
Failed(s, e) ==
  CASE e.ev = "serve" -> ServeFailed(s, e)
    [] e.ev \in {"race", "late"} -> RaceFailed(s, e)
    [] e.ev \in {"change", "damage", "reopen", "ask", "half"} -> {}
    [] OTHER -> CrashFailed(e)
Apply(s, e) ==
  CASE e.ev = "serve" -> ServeApply(s, e)
    [] e.ev \in {"change", "race"} -> Changed(s)
    [] e.ev = "damage" -> Damaged(s, e)
    [] OTHER -> s
VARIABLES t, i, s, bad
INSTANCE TraceMachine
=============================================================================
