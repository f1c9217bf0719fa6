---------------------------- MODULE ChunkGenTrace ---------------------------
(* Chunk streams recorded from the code, checked against ChunkGen.          *)
EXTENDS ChunkGen, Tracing

InitState(cfg) == [comps |-> cfg.comps, given |-> {}, unc |-> {}, mix |-> cfg.mix, ended |-> FALSE, mid |-> -1]

Failed(s, e) ==
  IF IsCrash(e) THEN CrashFailed(e) ELSE
  CASE e.ev = "mix" -> PrescriptionFailed(e.mix)
    [] e.ev = "chunk" ->
         (IF s.ended THEN {"chunk-after-end"} ELSE {})
         \cup ChunkFailed(s.comps, s.given, s.unc, s.mix, e.keys, e.hasmix, e.repother)
         \cup (IF e.mid >= s.mid THEN {} ELSE {"mixture-id-decreases"})
    [] e.ev = "none" -> NoneFailed(s.comps, s.given, s.unc, s.mix)
    [] e.ev = "end" -> EndFailed(s.comps, s.given, s.unc, s.mix)
    [] e.ev = "limit" -> {"stream-does-not-end"}
    [] OTHER -> {"unknown-event"}

Apply(s, e) ==
  CASE e.ev = "mix" -> [s EXCEPT !.mix = e.mix]
    [] e.ev = "chunk" -> [s EXCEPT !.given = @ \cup ChunkIds(e.keys), !.mid = e.mid]
    [] e.ev = "none" -> [s EXCEPT !.unc = @ \cup NoneUncertain(s.comps, s.given, s.mix)]
    [] e.ev = "end" -> [s EXCEPT !.ended = TRUE]

VARIABLES t, i, s, bad
INSTANCE TraceMachine
=============================================================================
