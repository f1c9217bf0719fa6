--------------------------- MODULE DistributorModel -------------------------
(* The design of the chunk distributor: per group a cache of generated      *)
(* chunks with usage counts, per worker of each node the next index it gets *)
(* (stepping by the number of workers), checkpoints that save all of it and *)
(* move every worker back to the chunk it was working on, a generator that  *)
(* is replayed on restore. Every step is checked against Distributor.       *)
EXTENDS Distributor, TLC

CONSTANTS G, N, W,     \* groups, nodes per group, workers per node
          Total,       \* chunks the data suffices for
          MaxFb,       \* changes of the mixture
          MaxCk        \* checkpoints

Gs == 1..G
Ns == 1..N
Ws == 1..W
VARIABLES nxt, cache, use, gen, fb, disk, counter,   \* the implementation
          d, bad                                      \* the abstract job, clauses violated
impl == <<nxt, cache, use, gen, fb, disk, counter>>
vars == <<nxt, cache, use, gen, fb, disk, counter, d, bad>>

Init ==
  /\ nxt = [p \in Gs \X Ns \X Ws |-> p[3]]
  /\ cache = [g \in Gs |-> <<>>] /\ use = [g \in Gs |-> <<>>]
  /\ gen = 0 /\ fb = 0 /\ disk = <<>> /\ counter = 0
  /\ d = NewDist(G, N, W) /\ bad = {}

Drop(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]

Contents(c) == {c[k].c : k \in DOMAIN c}

Request(g, n, w) ==
  LET i == nxt[<<g, n, w>>] IN
  /\ <<g, n>> \notin Reported(d)
  /\ IF i \notin DOMAIN cache[g] /\ gen >= Total
     THEN LET r == [g |-> g, n |-> n, w |-> w, res |-> "end", c |-> 0, mid |-> fb, skip |-> 0] IN
          /\ Len(d.hist) < Total + MaxFb + 1
          /\ bad' = bad \cup RequestFailed(d, r)
          /\ d' = RequestApply(d, r)
          /\ UNCHANGED impl
     ELSE LET new == i \notin DOMAIN cache[g]
              ch == IF new THEN [c |-> 100 * fb + gen + 1, skip |-> 0, mid |-> fb] ELSE cache[g][i]
              c1 == IF new THEN Put(cache[g], i, ch) ELSE cache[g]
              u1 == Put(use[g], i, (IF new THEN 0 ELSE use[g][i]) + 1)
              old == i - W
              del == u1[i] >= N /\ old \in DOMAIN c1
              r == [g |-> g, n |-> n, w |-> w, res |-> "chunk", c |-> ch.c, mid |-> ch.mid, skip |-> ch.skip] IN
          /\ gen' = IF new THEN gen + 1 ELSE gen
          /\ cache' = [cache EXCEPT ![g] = IF del THEN Drop(c1, old) ELSE c1]
          /\ use' = [use EXCEPT ![g] = IF del THEN Drop(u1, old) ELSE u1]
          /\ nxt' = [nxt EXCEPT ![<<g, n, w>>] = @ + W]
          /\ d' = RequestApply(d, r)
          /\ bad' = bad \cup RequestFailed(d, r) \cup RetainFailed(d', g, Contents(cache'[g]))
          /\ UNCHANGED <<fb, disk, counter>>

Feedback ==
  /\ fb < MaxFb
  /\ fb' = fb + 1
  /\ d' = [d EXCEPT !.hist = Append(@, "f")]
  /\ UNCHANGED <<nxt, cache, use, gen, disk, counter, bad>>

(* What goes to disk: every worker moved back to the chunk it works on,     *)
(* unless it has not been given one (yet)                                   *)
Prev(p) == nxt[p] - W
HasPrev(p) == Prev(p) \in DOMAIN cache[p[1]]
Status(w) == 1
DiskState ==
  [nxt |-> [p \in DOMAIN nxt |-> IF HasPrev(p) THEN Prev(p) ELSE nxt[p]],
   cache |-> [g \in Gs |-> [k \in DOMAIN cache[g] |->
                LET moved == \E n \in Ns, w \in Ws : Prev(<<g, n, w>>) = k IN
                IF moved THEN [cache[g][k] EXCEPT !.skip = 1] ELSE cache[g][k]]],
   use |-> [g \in Gs |-> [k \in DOMAIN use[g] |-> 0]],
   gen |-> gen, fb |-> fb]

Report(g, n) ==
  /\ Len(disk) < MaxCk /\ counter < MaxCk + 1
  /\ LET r0 == [g |-> g, n |-> n, st |-> [w \in Ws |-> 1]]
         id == IF d.cur = "" THEN ToString(counter + 1) ELSE d.cur
         again == <<g, n>> \in Reported(d)
         last == Reported(d) \cup {<<g, n>>} = GN(d)
         ok == \A gg \in Gs, w \in Ws : \A a, b \in Ns : nxt[<<gg, a, w>>] = nxt[<<gg, b, w>>]
         res == IF again \/ (last /\ ~ok) THEN "reject" ELSE "id"
         r == [g |-> g, n |-> n, st |-> [w \in Ws |-> 1], res |-> res, id |-> id] IN
     /\ counter' = IF ~again /\ d.cur = "" THEN counter + 1 ELSE counter
     /\ disk' = IF ~again /\ last /\ ok THEN Append(disk, [id |-> id, num |-> counter', st |-> DiskState]) ELSE disk
     /\ bad' = bad \cup StatusFailed(d, r)
     /\ d' = StatusApply(d, r)
     /\ UNCHANGED <<nxt, cache, use, gen, fb>>

Complete ==
  /\ \E x \in Range(disk) :
       /\ x.id \notin d.done
       /\ LET r == [id |-> x.id, res |-> "true", disk |-> TRUE, wait |-> TRUE] IN
          bad' = bad \cup PollFailed(d, r) /\ d' = PollApply(d, r)
  /\ UNCHANGED impl

Restore ==
  /\ \E x \in Range(disk) :
       /\ x.id \in d.done
       /\ nxt' = x.st.nxt /\ cache' = x.st.cache /\ use' = x.st.use /\ gen' = x.st.gen /\ fb' = x.st.fb
       /\ counter' = MaxOf({y.num : y \in Range(disk)})
       /\ LET r == [id |-> x.id, res |-> "ok"] IN
          bad' = bad \cup RestoreFailed(d, r) /\ d' = RestoreApply(d, r)
  /\ UNCHANGED disk

Next == \/ \E g \in Gs, n \in Ns, w \in Ws : Request(g, n, w)
        \/ Feedback
        \/ \E g \in Gs, n \in Ns : Report(g, n)
        \/ Complete
        \/ Restore
Spec == Init /\ [][Next]_vars

(* ----------------------------------------------------------- properties  *)
NoClauseViolated == bad = {}
Disjoint == \A x, y \in GW(d) : x # y => Range(d.asg[x]) \cap Range(d.asg[y]) = {}
NoDuplicate == \A x \in GW(d) : Cardinality(Range(d.asg[x])) = Len(d.asg[x])
(* Nothing generated is lost: every chunk number has been assigned          *)
NothingLost == Cardinality(UNION {Range(d.asg[x]) : x \in GW(d)}) = gen
=============================================================================
