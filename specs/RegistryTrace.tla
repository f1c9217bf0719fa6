--------------------------- MODULE RegistryTrace ----------------------------
EXTENDS Registry, Tracing
InitState(cfg) == NewRegistry
Failed(s, e) ==
  CASE e.ev = "register" -> RegisterFailed(s, e)
    [] e.ev = "remove" -> RemoveFailed(s, e)
    [] e.ev = "exists" -> ExistsFailed(s, e)
    [] e.ev = "dump" -> DumpFailed(s, e)
    [] e.ev \in {"reopen", "crash", "ask"} -> {}
    [] OTHER -> CrashFailed(e)
Apply(s, e) ==
  CASE e.ev = "register" -> RegisterApply(s, e)
    [] e.ev = "remove" -> RemoveApply(s, e)
    [] e.ev = "crash" -> CrashApply(s, e)
    [] OTHER -> s
VARIABLES t, i, s, bad
INSTANCE TraceMachine
=============================================================================
