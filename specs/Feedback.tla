------------------------------ MODULE Feedback ------------------------------
(* What a client tells the system about its training. The loaders of a      *)
(* client note the newest mixture they have received chunks of; the         *)
(* training loop names it in every report. newest = -1: nothing received.   *)
EXTENDS Naturals, Integers, Sequences, FiniteSets
Max2(a, b) == IF a > b THEN a ELSE b
NewClient == [job |-> "", newest |-> -1]
(* A loader receives a chunk. A client serves one job after the other.      *)
Received(c, job, m) == [job |-> job, newest |-> IF c.job = job THEN Max2(c.newest, m) ELSE m]
(* One process reports for all that train together *)
Speaks(e) == e.dp = 0 /\ e.tp = 0
Reported(e, m) == IF Speaks(e) THEN <<[job |-> e.job, step |-> e.step, m |-> m, l |-> e.l, n |-> e.n]>> ELSE <<>>
=============================================================================
