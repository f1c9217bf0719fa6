---------------------------- MODULE FeedbackTrace ---------------------------
(* Clients of the real system. Events:                                      *)
(*  chunk   c, job, m: a loader of client c receives a chunk of mixture m   *)
(*  end     c: a loader has come to its end                                 *)
(*  report  c, job, dp, tp, step, l, n (<<>>: none), lo, hi: what arrived   *)
(*          is arrived: [job, step, m, l, n, arrays]; the mixture lies in   *)
(*          lo..hi where the loaders run on their own (exact: no bounds);   *)
(*          mine: the loop's data come from the system at all; failed       *)
EXTENDS Feedback, Tracing
InitState(cfg) == [c \in DOMAIN cfg.clients |-> NewClient @@ [said |-> -1]]
Wrong(c, e, r) ==
  LET x == e.arrived[1] IN
  (IF x.job # r.job THEN {"wrong-job"} ELSE {})
  \cup (IF x.step # r.step THEN {"wrong-step"} ELSE {})
  \cup (IF x.l # r.l THEN {"wrong-losses"} ELSE {})
  \cup (IF x.n # r.n THEN {"wrong-counts"} ELSE {})
  \cup (IF ~x.arrays THEN {"no-arrays"} ELSE {})
  \cup (IF e.exact THEN IF x.m # r.m THEN {"wrong-mixture"} ELSE {}
        ELSE IF x.m < e.lo THEN {"mixture-too-old"} ELSE IF x.m > e.hi THEN {"mixture-unknown"}
        ELSE IF c.job = e.job /\ x.m < c.said THEN {"mixture-goes-back"} ELSE {})
Failed(s, e) ==
  CASE e.ev = "report" ->
         LET want == IF e.mine THEN Reported(e, s[e.c].newest) ELSE <<>> IN
         IF e.failed THEN {"report-fails"}
         ELSE IF Len(e.arrived) # Len(want) THEN {IF Len(e.arrived) < Len(want) THEN "report-lost" ELSE IF want = <<>> THEN "report-unexpected" ELSE "report-repeated"}
         ELSE IF want = <<>> THEN {} ELSE Wrong(s[e.c], e, want[1])
    [] e.ev \in {"chunk", "end"} -> {}
    [] OTHER -> CrashFailed(e)
Apply(s, e) ==
  CASE e.ev = "chunk" -> [s EXCEPT ![e.c] = Received(@, e.job, e.m) @@ [said |-> @.said]]
    [] e.ev = "report" /\ ~e.exact /\ e.arrived # <<>> -> [s EXCEPT ![e.c] = [@ EXCEPT !.job = e.job, !.said = e.arrived[1].m]]
    [] OTHER -> s
VARIABLES t, i, s, bad
INSTANCE TraceMachine
=============================================================================
