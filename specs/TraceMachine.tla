---------------------------- MODULE TraceMachine ----------------------------
(* One run over every recorded trace; exactly one verdict per trace.        *)
EXTENDS Tracing
CONSTANTS InitState(_), Failed(_, _), Apply(_, _)
VARIABLES t, i, s, bad
vars == <<t, i, s, bad>>
Ev == Traces[t].ev
(* A trace may end before there is anything to talk about *)
Broken(tr) == tr.ev # <<>> /\ IsCrash(tr.ev[1])
TraceInit == /\ t \in DOMAIN Traces /\ i = 1 /\ bad = {}
             /\ s = IF Broken(Traces[t]) THEN <<>> ELSE InitState(Traces[t].cfg)
TraceNext ==
  /\ bad = {} /\ i <= Len(Ev) + 1
  /\ t' = t
  /\ IF i > Len(Ev)
     THEN Verdict(t, i, {}) /\ i' = i + 1 /\ UNCHANGED <<s, bad>>
     ELSE LET f == IF Broken(Traces[t]) THEN CrashFailed(Ev[i]) ELSE Failed(s, Ev[i]) IN
          /\ bad' = f
          /\ IF f = {} THEN s' = Apply(s, Ev[i]) /\ i' = i + 1
                       ELSE s' = s /\ i' = i /\ Verdict(t, i, f)
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
