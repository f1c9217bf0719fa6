-------------------------------- MODULE Wire --------------------------------
(* A byte stream of messages between two sides. Messages are sequences of   *)
(* bytes on the stream, one behind the other; the stream arrives in pieces  *)
(* and may be cut or stall anywhere. What is read is what was written, in   *)
(* order, or nothing any more.                                              *)
EXTENDS Integers, Sequences, FiniteSets

(* sizes: bytes of the messages; vals: their contents; pieces: [upto, at]:  *)
(* stream position and time (s) of its arrival; cut: the stream ends there  *)
(* (-1: it stalls after the last piece)                                     *)
NewWire(cfg) == [sizes |-> cfg.sizes, vals |-> cfg.vals, pieces |-> cfg.pieces, ends |-> cfg.ends,
                 k |-> 0, pos |-> 0, now |-> 0, down |-> FALSE]
Limit == 10      \* s a side waits for bytes it expects

Arrived(s) == IF s.pieces = <<>> THEN 0 ELSE s.pieces[Len(s.pieces)].upto
ArrivalOf(s, p) == LET K == {k \in DOMAIN s.pieces : s.pieces[k].upto >= p} IN
                   IF p = 0 THEN 0 ELSE s.pieces[CHOOSE k \in K : \A l \in K : k <= l].at
Complete(s, n) == s.pos + n <= Arrived(s)
InTime(s, n) == Complete(s, n) /\ ArrivalOf(s, s.pos + n) < s.now + Limit

(* e: [res (value|none|error), val, now]                                    *)
ReadFailed(s, e) ==
  LET n == s.sizes[s.k + 1] IN
  (CASE e.res = "value" -> IF ~Complete(s, n) THEN {"message-made-up"}
                           ELSE IF e.val = s.vals[s.k + 1] THEN {} ELSE {"message-changed"}
     [] OTHER -> IF InTime(s, n) THEN {"message-lost"} ELSE {})
  \cup (IF e.now > s.now + 4 * Limit /\ ~(Complete(s, n) /\ e.res = "value") THEN {"reader-does-not-give-up"} ELSE {})
ReadApply(s, e) == IF e.res = "value" THEN [s EXCEPT !.k = @ + 1, !.pos = @ + s.sizes[s.k + 1], !.now = e.now] ELSE [s EXCEPT !.down = TRUE]

(* e: [ok, fits]: a message that does not fit its frame is refused when     *)
(* written, all others are accepted                                         *)
WriteFailed(e) == IF e.ok = e.fits THEN {} ELSE {"write-outcome"}
=============================================================================
