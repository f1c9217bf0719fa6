---------------------------- MODULE ServerTrace -----------------------------
EXTENDS Server, Tracing
InitState(cfg) == NewServer(cfg)
Failed(s, e) ==
  CASE e.ev = "dataset" -> DatasetFailed(s, e)
    [] e.ev = "query" -> QueryFailed(s, e)
    [] e.ev = "status" -> StatusFailed(s, e)
    [] e.ev = "wait" -> WaitFailed(s, e)
    [] e.ev = "job" -> JobFailed(s, e)
    [] e.ev = "unknown" -> UnknownFailed(s, e)
    [] e.ev = "file" -> IF e.same THEN {} ELSE {"file-content-differs"}
    [] e.ev \in {"cut", "ask", "restart"} -> {}
    [] OTHER -> CrashFailed(e)
Apply(s, e) ==
  CASE e.ev = "dataset" -> DatasetApply(s, e)
    [] e.ev = "query" -> QueryApply(s, e)
    [] e.ev = "status" -> StatusApply(s, e)
    [] e.ev = "wait" -> WaitApply(s, e)
    [] e.ev = "job" -> JobApply(s, e)
    [] e.ev = "restart" -> Restarted(s)
    [] OTHER -> s
VARIABLES t, i, s, bad
INSTANCE TraceMachine
=============================================================================
