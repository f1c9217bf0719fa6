------------------------------- MODULE Loader -------------------------------
(* What the data loaders of a training job deliver. chunks: the chunks of   *)
(* the job, each a sequence of samples. A worker is <<g, n, w>>: group,     *)
(* node, loader worker; the workers <<g, 1, w>>, <<g, 2, w>>, ... are       *)
(* replicas that get the same chunks. State:                                *)
(*   lists[<<g, w>>]    chunks handed to the replicas so far, in order      *)
(*   at[<<g, n, w>>]    [k, i]: i samples of the k-th of them delivered     *)
EXTENDS Integers, Sequences, FiniteSets

Replicas(G, W) == (1..G) \X (1..W)
Workers(G, N, W) == (1..G) \X (1..N) \X (1..W)
Group(x) == <<x[1], x[3]>>
Handed(lists) == UNION {{lists[r][j] : j \in DOMAIN lists[r]} : r \in DOMAIN lists}
Fresh(G, N, W) == [lists |-> [r \in Replicas(G, W) |-> <<>>], at |-> [x \in Workers(G, N, W) |-> [k |-> 0, i |-> 0]]]

(* A worker has read its chunk to the end *)
AtEnd(chunks, s, x) == LET p == s.at[x] IN p.k = 0 \/ p.i = Len(chunks[s.lists[Group(x)][p.k]])

(* Chunk c, whose first sample is delivered now, may be the next one of x *)
NextChunk(s, x, c) ==
  LET r == Group(x)  k == s.at[x].k + 1 IN
  IF k <= Len(s.lists[r]) THEN s.lists[r][k] = c ELSE c \notin Handed(s.lists)
(* Sample number j of chunk c is the next one of worker x *)
May(chunks, s, x, c, j) ==
  \/ ~AtEnd(chunks, s, x) /\ s.lists[Group(x)][s.at[x].k] = c /\ s.at[x].i + 1 = j
  \/ AtEnd(chunks, s, x) /\ j = 1 /\ NextChunk(s, x, c)
Moved(s, x, c, j) ==
  LET r == Group(x)
      k == IF j = 1 THEN s.at[x].k + 1 ELSE s.at[x].k
      lists == IF k > Len(s.lists[r]) THEN [s.lists EXCEPT ![r] = Append(@, c)] ELSE s.lists
  IN [s EXCEPT !.lists = lists, !.at[x] = [k |-> k, i |-> j]]
(* All is delivered: every worker is at the end of its last chunk, and the  *)
(* chunks are all handed out                                                *)
AllDelivered(chunks, s) ==
  /\ Handed(s.lists) = DOMAIN chunks
  /\ \A x \in DOMAIN s.at : AtEnd(chunks, s, x) /\ s.at[x].k = Len(s.lists[Group(x)])
(* What a worker reports: the number of the last sample of its chunk, from 0 *)
Position(s, x) == IF s.at[x].i = 0 THEN 0 ELSE s.at[x].i - 1
(* Continuing from a checkpoint delivers the last sample again. Workers     *)
(* that run ahead of the training loop lose what was on its way.            *)
Resumed(s) == [s EXCEPT !.at = [x \in DOMAIN s.at |-> [k |-> s.at[x].k, i |-> IF s.at[x].i = 0 THEN 0 ELSE s.at[x].i - 1]]]
=============================================================================
