------------------------------- MODULE Tokens -------------------------------
(* Token sequences out of a stream of tokens. L + 1 tokens per sequence;    *)
(* the next one starts L (overlapping by one) or L + 1 tokens later. The    *)
(* incomplete tail is dropped; one padded sequence if there would be none.  *)
EXTENDS Integers, Sequences, FiniteSets

RECURSIVE Flat(_)
Flat(q) == IF q = <<>> THEN <<>> ELSE Head(q) \o Flat(Tail(q))
(* ids: per sample; markers as configured (<<>> or <<id>>)                  *)
Stream(ids, bos, eos) == Flat([i \in DOMAIN ids |-> bos \o ids[i] \o eos])
Step(L, overlap) == IF overlap THEN L ELSE L + 1
Full(n, L, overlap) == IF n < L + 1 THEN 0 ELSE 1 + (n - L - 1) \div Step(L, overlap)
Count(n, L, overlap, atleast) == IF Full(n, L, overlap) = 0 /\ n > 0 /\ atleast THEN 1 ELSE Full(n, L, overlap)
StartOf(i, L, overlap) == (i - 1) * Step(L, overlap)
(* q is the i-th sequence of the stream                                     *)
IsSequence(q, i, st, L, overlap, atleast) ==
  /\ Len(q) = L + 1
  /\ IF i <= Full(Len(st), L, overlap) THEN q = SubSeq(st, StartOf(i, L, overlap) + 1, StartOf(i, L, overlap) + L + 1)
     ELSE /\ i = 1 /\ atleast /\ Len(st) > 0
          /\ SubSeq(q, 1, Len(st)) = st
          /\ \A j \in DOMAIN q : \E k \in DOMAIN st : q[j] = st[k]
=============================================================================
