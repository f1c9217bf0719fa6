------------------------------- MODULE Reading ------------------------------
(* Iterating over the samples of a chunk. Per key of the chunk there are    *)
(* samples left to be read. Reading goes round by round: in a round, every  *)
(* key gives its share of samples, in any order. In sequence, all shares    *)
(* are one (round-robin). In windows, the shares follow the mixture of the  *)
(* chunk, rounded down; any keys may fill up the rest. A round is cut short *)
(* when keys run out.                                                       *)
EXTENDS Integers, Sequences, FiniteSets

RECURSIVE SumUpTo(_, _)
SumUpTo(q, n) == IF n = 0 THEN 0 ELSE q[n] + SumUpTo(q, n - 1)
Total(q) == SumUpTo(q, Len(q))
Least(a, b) == IF a < b THEN a ELSE b
Zero(n) == [k \in DOMAIN n |-> 0]

(* What a round consists of, for a chunk with n[k] samples of key k         *)
InSequence(n) == [floor |-> [k \in DOMAIN n |-> 1], rest |-> 0, exact |-> FALSE]
InWindows(w, n, exact) ==
  LET floor == [k \in DOMAIN n |-> (w * n[k]) \div Total(n)]
  IN [floor |-> floor, rest |-> w - Total(floor), exact |-> exact]

(* A hypothesis about the round: samples used of each key, extra: beyond    *)
(* the shares; free: only keys without a share are left, everything goes;   *)
(* done: nothing more to come. exact: no round after one that was cut short *)
Open(r, h, left) == IF h.done THEN {}
                    ELSE {k \in DOMAIN left : left[k] > 0 /\ (h.free \/ h.used[k] < r.floor[k] \/ h.extra < r.rest)}
Fresh(h) == [h EXCEPT !.used = Zero(h.used), !.extra = 0]
Cut(r, h, left) == IF r.exact \/ Total(left) = 0 THEN [h EXCEPT !.done = TRUE]
                   ELSE IF Total(h.used) = 0 THEN [h EXCEPT !.free = TRUE]
                   ELSE Fresh(h)
RECURSIVE Settle(_, _, _, _)
Settle(r, h, left, depth) ==
  LET full == ~h.free /\ Total(h.used) = Total(r.floor) + r.rest
      (* the rest might be up to a key that ran out                         *)
      maybe == \E k \in DOMAIN left : left[k] = 0
               /\ \A j \in DOMAIN left : left[j] > 0 => h.used[j] >= r.floor[j]
  IN IF h.done \/ depth = 0 THEN {h}
     ELSE IF full THEN Settle(r, Fresh(h), left, depth - 1)
     ELSE IF Open(r, h, left) = {} THEN Settle(r, Cut(r, h, left), left, depth - 1)
     ELSE IF ~h.free /\ maybe THEN {h} \cup Settle(r, Cut(r, h, left), left, depth - 1)
     ELSE {h}
Start(r, n) == Settle(r, [used |-> Zero(n), extra |-> 0, free |-> FALSE, done |-> FALSE], n, 3)
(* a sample of key k is read; left: afterwards                              *)
Take(r, H, k, left) ==
  UNION {Settle(r, [h EXCEPT !.used[k] = @ + 1, !.extra = IF h.used[k] >= r.floor[k] THEN @ + 1 ELSE @], left, 3) :
         h \in {g \in H : k \in Open(r, g, [left EXCEPT ![k] = @ + 1])}}
CanEnd(H) == \E h \in H : h.done
=============================================================================
