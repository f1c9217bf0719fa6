----------------------------- MODULE Determinism ----------------------------
(* Chunk generation is a function: whatever the process, its hash seed, the *)
(* cache and earlier queries, the same query with the same mixture history  *)
(* yields the same stream. ref maps a (query, history) to its stream.       *)
EXTENDS Tracing
InitState(cfg) == [ref |-> <<>>]

RECURSIVE Lookup(_, _)
Lookup(ref, job) == IF ref = <<>> THEN <<>> ELSE IF Head(ref).job = job THEN <<Head(ref).chunks>> ELSE Lookup(Tail(ref), job)

IsPre(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
Failed(s, e) ==
  IF IsCrash(e) THEN CrashFailed(e) ELSE
  (IF e.ok THEN {} ELSE {"query-rejected"})
  \cup LET r == Lookup(s.ref, e.job) IN
       IF r = <<>> \/ r[1] = e.chunks THEN {}
       ELSE IF IsPre(r[1], e.chunks) \/ IsPre(e.chunks, r[1]) THEN {"stream-of-different-length"} ELSE {"different-stream"}
Apply(s, e) == IF Lookup(s.ref, e.job) = <<>> THEN [s EXCEPT !.ref = Append(@, [job |-> e.job, chunks |-> e.chunks])] ELSE s

VARIABLES t, i, s, bad
INSTANCE TraceMachine
=============================================================================
