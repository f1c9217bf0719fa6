------------------------------- MODULE Cache --------------------------------
(* The query cache as its user sees it. The registered data changes with    *)
(* every (un)registration; ver numbers these changes. An entry is <<query,  *)
(* ver>>: the result of the query on the data of that time was stored       *)
(* completely. Whatever else may lie in the cache directory does not count. *)
EXTENDS Integers, Sequences, FiniteSets

NewCache == [ver |-> 0, entries |-> {}]
Changed(c) == [c EXCEPT !.ver = @ + 1]

(* e: [q, got, fresh, hit, stored]: the chunks delivered to the job, those  *)
(* of executing the query now, whether it was served from the cache, and    *)
(* whether a new entry was stored.                                          *)
ServeFailed(c, e) ==
  (IF e.got = e.fresh THEN {} ELSE {"other-result-than-executing-the-query"})
  \cup (IF <<e.q, c.ver>> \in c.entries /\ ~e.hit THEN {"valid-entry-not-found"} ELSE {})
ServeApply(c, e) == IF e.stored THEN [c EXCEPT !.entries = @ \cup {<<e.q, c.ver>>}] ELSE c

(* The data changed while the query was executed: either result is right,   *)
(* but what is stored now belongs to the old data.                          *)
RaceFailed(c, e) == IF e.got = e.fresh \/ e.got = e.before THEN {} ELSE {"other-result-than-executing-the-query"}

Damaged(c, e) == [c EXCEPT !.entries = {x \in @ : x[1] # e.q}]
=============================================================================
