------------------------------ MODULE Registry ------------------------------
(* The registry of datasets: a map from names to what was recorded for them *)
(* at registration. Registration is all or nothing; what a registration     *)
(* ended by a crash leaves behind is unspecified (but can be removed) and   *)
(* concerns that dataset only.                                              *)
EXTENDS Query

(* r: sequence of [name, samples, torn]; names are unique *)
NewRegistry == <<>>
Names(r) == {r[k].name : k \in DOMAIN r}
Sound(r) == {r[k].name : k \in {k \in DOMAIN r : ~r[k].torn}}
Without(r, n) == SelectSeq(r, LAMBDA x : x.name # n)
Add(r, n, samples, torn) == Append(Without(r, n), [name |-> n, samples |-> samples, torn |-> torn])

(* fits: whether the data, the parser and the type allow the registration:  *)
(* "yes", "no", or "maybe" (left to the implementation).                    *)
RegisterFailed(r, e) ==
  (IF e.res = "ok" /\ e.name \in Sound(r) THEN {"name-registered-twice"} ELSE {})
  \cup (IF e.res = "ok" /\ e.fits = "no" THEN {"bad-dataset-registered"} ELSE {})
  \cup (IF e.res # "ok" /\ e.fits = "yes" /\ e.name \notin Names(r) THEN {"registration-refused"} ELSE {})
RegisterApply(r, e) == IF e.res = "ok" THEN Add(r, e.name, e.samples, FALSE) ELSE r

RemoveFailed(r, e) ==
  (IF e.res = "ok" /\ e.name \notin Names(r) THEN {"unknown-dataset-removed"} ELSE {})
  \cup (IF e.res # "ok" /\ e.name \in Sound(r) THEN {"removal-refused"} ELSE {})
RemoveApply(r, e) == Without(r, e.name)   \* also a torn one not found

CrashApply(r, e) == IF e.name \in Names(r) THEN r ELSE Add(r, e.name, e.samples, TRUE)

ExistsFailed(r, e) ==
  IF e.name \in Sound(r) THEN (IF e.res THEN {} ELSE {"registered-dataset-unknown"})
  ELSE IF e.name \in Names(r) THEN {} ELSE IF e.res THEN {"unknown-dataset-reported"} ELSE {}

(* What queries see: names listed and the index of a query for everything *)
RECURSIVE Concat(_)
Concat(r) == IF r = <<>> THEN <<>> ELSE Head(r).samples \o Concat(Tail(r))

DumpFailed(r, e) ==
  LET sound == Concat(SelectSeq(r, LAMBDA x : ~x.torn))
      torn == SelectSeq(r, LAMBDA x : x.torn)
      tornnames == {torn[k].name : k \in DOMAIN torn}
      all == Concat(r)
      got == UNION {Covered(sound, e.idx[k]) : k \in DOMAIN e.idx} IN
  (IF /\ {e.names[k] : k \in DOMAIN e.names} \subseteq Names(r) /\ Sound(r) \subseteq {e.names[k] : k \in DOMAIN e.names}
      /\ Cardinality({e.names[k] : k \in DOMAIN e.names}) = Len(e.names) THEN {} ELSE {"names-listed-wrong"})
  \cup (IF got = DOMAIN sound THEN {} ELSE {"sample-not-recorded"})
  \cup (IF \A k \in DOMAIN e.idx : e.idx[k].ds \in Names(r) THEN {} ELSE {"samples-of-unknown-dataset"})
  \cup (IF \A k \in DOMAIN e.idx : e.idx[k].ds \in tornnames \/ e.idx[k].ds \notin Names(r) \/ Exact(all, e.idx[k])
        THEN {} ELSE {"wrong-properties-or-invented-samples"})
  \cup (IF OneEntry(e.idx) /\ Disjoint(e.idx) THEN {} ELSE {"sample-recorded-twice"})
=============================================================================
