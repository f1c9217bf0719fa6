---------------------------- MODULE ParsersTrace ----------------------------
EXTENDS Parsers, Tracing
InitState(cfg) == NewParsers(cfg)
Failed(s, e) ==
  IF IsCrash(e) THEN CrashFailed(e) ELSE
  CASE e.ev = "reg" -> RegFailed(s, e)
    [] e.ev = "race" -> RaceFailed(s, e)
    [] e.ev = "add" -> AddFailed(s, e)
    [] e.ev = "remove" -> RemoveFailed(s, e)
    [] e.ev = "read" -> ReadFailed(s, e)
    [] e.ev = "restart" -> {}
    [] OTHER -> {"unknown-event"}
Apply(s, e) ==
  CASE e.ev = "reg" -> RegApply(s, e)
    [] e.ev = "race" -> RaceApply(s, e)
    [] e.ev = "add" -> AddApply(s, e)
    [] e.ev = "remove" -> RemoveApply(s, e)
    [] e.ev = "restart" -> Restarted(s)
    [] OTHER -> s
VARIABLES t, i, s, bad
INSTANCE TraceMachine
=============================================================================
