----------------------------- MODULE WireTrace ------------------------------
EXTENDS Wire, Tracing
InitState(cfg) == NewWire(cfg)
Failed(s, e) ==
  CASE e.ev = "read" -> IF s.down THEN {} ELSE ReadFailed(s, e)
    [] e.ev = "write" -> WriteFailed(e)
    [] OTHER -> CrashFailed(e)
Apply(s, e) == IF e.ev = "read" /\ ~s.down THEN ReadApply(s, e) ELSE s
VARIABLES t, i, s, bad
INSTANCE TraceMachine
=============================================================================
