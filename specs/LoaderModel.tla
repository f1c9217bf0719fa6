----------------------------- MODULE LoaderModel ----------------------------
(* Loader workers as built: each reads its chunks, notes its position       *)
(* before it hands on a sample, and is up to Ahead samples in front of the  *)
(* training loop, which asks its workers in turns. At a checkpoint all      *)
(* nodes report the positions of their workers; with replicas at the same   *)
(* position everything is loaded anew from there.                           *)
EXTENDS Loader, TLC
CONSTANTS G, N, W, NChunks, Size, Ahead, Restarts

chunks == [c \in 1..NChunks |-> [j \in 1..Size |-> (c - 1) * Size + j]]
Ws == Workers(G, N, W)
Nodes == (1..G) \X (1..N)

VARIABLES s,        \* the workers
          status, queue, done,   \* of each worker: noted position, samples on their way, nothing left
          got,      \* samples the training loop got, per worker
          turn,     \* of each node
          left      \* restarts
vars == <<s, status, queue, done, got, turn, left>>

Init ==
  /\ s = Fresh(G, N, W) /\ status = [x \in Ws |-> 0] /\ queue = [x \in Ws |-> <<>>] /\ done = [x \in Ws |-> FALSE]
  /\ got = [x \in Ws |-> <<>>] /\ turn = [p \in Nodes |-> 1] /\ left = Restarts

Put(x, c, j) ==
  /\ s' = Moved(s, x, c, j) /\ status' = [status EXCEPT ![x] = j - 1]
  /\ queue' = [queue EXCEPT ![x] = Append(@, chunks[c][j])] /\ UNCHANGED <<done, got, turn, left>>
Yield(x) ==
  /\ ~done[x] /\ Len(queue[x]) < Ahead
  /\ LET r == Group(x)  p == s.at[x] IN
     IF ~AtEnd(chunks, s, x) THEN Put(x, s.lists[r][p.k], p.i + 1)
     ELSE IF p.k < Len(s.lists[r]) THEN Put(x, s.lists[r][p.k + 1], 1)
     ELSE IF Handed(s.lists) # DOMAIN chunks
          THEN Put(x, CHOOSE c \in DOMAIN chunks \ Handed(s.lists) : \A d \in DOMAIN chunks \ Handed(s.lists) : c <= d, 1)
          ELSE done' = [done EXCEPT ![x] = TRUE] /\ UNCHANGED <<s, status, queue, got, turn, left>>
Get(g, n) ==
  LET w == turn[<<g, n>>]  x == <<g, n, w>> IN
  /\ queue[x] # <<>> \/ done[x]
  /\ IF queue[x] # <<>> THEN got' = [got EXCEPT ![x] = Append(@, Head(queue[x]))] /\ queue' = [queue EXCEPT ![x] = Tail(@)]
                        ELSE (\E v \in 1..W : ~done[<<g, n, v>>] \/ queue[<<g, n, v>>] # <<>>) /\ UNCHANGED <<got, queue>>
  /\ turn' = [turn EXCEPT ![<<g, n>>] = (w % W) + 1]
  /\ UNCHANGED <<s, status, done, left>>
Agree == \A x, y \in Ws : Group(x) = Group(y) => s.at[x] = s.at[y]
Restart ==
  /\ left > 0 /\ Agree /\ \A x \in Ws : s.at[x].k > 0
  /\ s' = [s EXCEPT !.at = [x \in Ws |-> [k |-> s.at[x].k, i |-> status[x]]]]
  /\ queue' = [x \in Ws |-> <<>>] /\ done' = [x \in Ws |-> FALSE] /\ turn' = [p \in Nodes |-> 1] /\ left' = left - 1
  /\ UNCHANGED <<status, got>>
Next == (\E x \in Ws : Yield(x)) \/ (\E p \in Nodes : Get(p[1], p[2])) \/ Restart
Spec == Init /\ [][Next]_vars /\ WF_vars(\E x \in Ws : Yield(x)) /\ WF_vars(\E p \in Nodes : Get(p[1], p[2]))

IsPrefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
SetOf(q) == {q[i] : i \in DOMAIN q}
Intact == left = Restarts           \* no restart yet
SameSamples == Intact => \A x, y \in Ws : Group(x) = Group(y) => IsPrefix(got[x], got[y]) \/ IsPrefix(got[y], got[x])
NoneTwice == Intact => \A x \in Ws : Cardinality(SetOf(got[x])) = Len(got[x])
Disjoint == \A x, y \in Ws : Group(x) # Group(y) => SetOf(got[x]) \cap SetOf(got[y]) = {}
StatusIsPosition == \A x \in Ws : Intact => status[x] = Position(s, x)
Finished == \A x \in Ws : done[x] /\ queue[x] = <<>>
Everything == Finished => AllDelivered(chunks, s)
\* without running ahead nothing is lost by a restart, and one sample per worker delivered again at most
NothingLost == (Finished /\ Ahead = 1 /\ Intact) => UNION {SetOf(got[x]) : x \in Ws} = 1..(NChunks * Size)
Again == \A x \in Ws : Len(got[x]) <= Cardinality(SetOf(got[x])) + (Restarts - left)
LostAtMost == Finished => \A x \in Ws : Cardinality(UNION {SetOf(chunks[s.lists[Group(x)][j]]) : j \in DOMAIN s.lists[Group(x)]} \ SetOf(got[x]))
                                        <= (Restarts - left) * Ahead
Ends == <>Finished
=============================================================================
