----------------------------- MODULE ReadingTrace ---------------------------
(* Samples read from chunks of the real system. Events:                     *)
(*  chunk  keys: [kid, ids, bad]  a chunk; per key the samples in it and    *)
(*                                those that cannot be read                 *)
(*  open   conf, mode, w, best, skip   iteration begins; conf names all     *)
(*         that may influence the order                                     *)
(*  read   idx, kid, x            a sample (x = -1: none of the corpus)     *)
(*  kill                          a process reading for us is killed        *)
(*  gone   kids                   the samples of these cannot all be read   *)
(*         any more                                                         *)
(*  end / fail                    no more samples / an exception            *)
(*  drop                          iteration abandoned                       *)
(*  stream conf, idx, xs          what stream_results made of all chunks    *)
EXTENDS Reading, Tracing

None == [chunk |-> FALSE]
InitState(cfg) == [chunks |-> 0, all |-> [c \in {} |-> <<>>], ks |-> <<>>, orders |-> [c \in {} |-> [seq |-> <<>>, ended |-> FALSE]],
                   it |-> [open |-> FALSE]]

Keys(s) == DOMAIN s.ks
KeyOf(s, kid) == {k \in Keys(s) : s.ks[k].kid = kid}
Sizes(s) == [k \in Keys(s) |-> Len(s.ks[k].ids)]
IdSet(q) == {q[i] : i \in DOMAIN q}
AnyBad(s) == \E k \in Keys(s) : s.ks[k].bad
Ref(s, c) == IF c \in DOMAIN s.orders THEN s.orders[c] ELSE [seq |-> <<>>, ended |-> FALSE]

Begin(s, e) ==
  LET n == Sizes(s)
      w == Least(IF e.w < 1 THEN 128 ELSE e.w, Total(n))
      exact == e.mode = "window" /\ ~e.best
      all == [k \in Keys(s) |-> IdSet(s.ks[k].ids)]
      r == IF e.mode = "window" THEN InWindows(w, n, exact) ELSE InSequence(n)
  IN [open |-> TRUE, conf |-> e.conf, skip |-> e.skip, r |-> r, pos |-> e.skip, seq |-> <<>>, kill |-> FALSE,
      togo |-> all, H |-> IF e.skip > 0 THEN {} ELSE Start(r, n)]

Left(s) == [k \in Keys(s) |-> Cardinality(s.it.togo[k])]
ReadFailed(s, e) ==
  LET it == s.it  ref == Ref(s, it.conf) IN
  (IF e.idx # it.pos THEN {"sample-index"} ELSE {})
  \cup (IF KeyOf(s, e.kid) = {} THEN {"unknown-key"}
        ELSE LET k == CHOOSE k \in KeyOf(s, e.kid) : TRUE IN
             IF e.x \notin IdSet(s.ks[k].ids) THEN {IF e.x = -1 THEN "made-up-sample" ELSE "sample-of-other-key"}
             ELSE IF e.x \notin it.togo[k] THEN {"sample-repeated"}
             ELSE IF it.skip = 0 /\ Take(it.r, it.H, k, [Left(s) EXCEPT ![k] = @ - 1]) = {} THEN {"not-this-keys-turn"}
             ELSE {})
  \cup (IF it.pos + 1 > Len(ref.seq) THEN (IF ref.ended THEN {"more-than-before"} ELSE {})
        ELSE IF ref.seq[it.pos + 1] # e.x THEN {"order-differs"} ELSE {})
EndFailed(s) ==
  LET it == s.it  ref == Ref(s, it.conf) IN
  (IF it.skip = 0 /\ ~it.r.exact /\ Total(Left(s)) > 0
   THEN {IF it.kill \/ AnyBad(s) THEN "failure-concealed" ELSE "samples-lost"} ELSE {})
  \cup (IF it.skip = 0 /\ it.r.exact /\ ~CanEnd(it.H) THEN {"ended-early"} ELSE {})
  \cup (IF ref.ended /\ Len(ref.seq) > it.pos THEN {"less-than-before"} ELSE {})

RECURSIVE Joined(_)
Joined(q) == IF q = <<>> THEN <<>> ELSE Head(q) \o Joined(Tail(q))
StreamFailed(s, e) ==
  LET parts == IF e.conf \in DOMAIN s.all THEN s.all[e.conf] ELSE <<>> IN
  (IF e.xs # Joined(parts) THEN {"stream-differs"} ELSE {})
  \cup (IF e.idx # Joined([i \in DOMAIN parts |-> [j \in DOMAIN parts[i] |-> j - 1]]) THEN {"sample-index"} ELSE {})

Failed(s, e) ==
  CASE e.ev = "chunk" -> IF \E j, k \in DOMAIN e.keys : j # k /\ e.keys[j].kid = e.keys[k].kid THEN {"key-ids-not-unique"} ELSE {}
    [] e.ev = "open" -> {}
    [] e.ev = "read" -> IF ~s.it.open THEN {"sample-after-end"} ELSE ReadFailed(s, e)
    [] e.ev \in {"kill", "gone"} -> {}
    [] e.ev = "drop" -> {}
    [] e.ev = "end" -> IF s.it.open THEN EndFailed(s) ELSE {}
    [] e.ev = "fail" -> IF s.it.open /\ (s.it.kill \/ AnyBad(s)) THEN {} ELSE {"raised-exception"}
    [] e.ev = "stream" -> StreamFailed(s, e)
    [] OTHER -> CrashFailed(e)

Finish(s, ended) ==
  LET it == s.it
      old == Ref(s, it.conf)
      new == IF it.skip = 0 /\ Len(it.seq) >= Len(old.seq) THEN [seq |-> it.seq, ended |-> ended \/ old.ended] ELSE old
  IN [s EXCEPT !.it = [open |-> FALSE],
               !.orders = (it.conf :> new) @@ @,
               !.all = IF ended /\ it.skip = 0 /\ ~old.ended THEN (it.conf :> Append(IF it.conf \in DOMAIN @ THEN @[it.conf] ELSE <<>>, it.seq)) @@ @ ELSE @]
Apply(s, e) ==
  CASE e.ev = "chunk" -> [s EXCEPT !.chunks = @ + 1, !.ks = e.keys, !.orders = [c \in {} |-> [seq |-> <<>>, ended |-> FALSE]], !.it = [open |-> FALSE]]
    [] e.ev = "open" -> [s EXCEPT !.it = Begin(s, e)]
    [] e.ev = "read" ->
         LET k == CHOOSE k \in KeyOf(s, e.kid) : TRUE
             togo == [s.it.togo EXCEPT ![k] = @ \ {e.x}]
             left == [j \in Keys(s) |-> Cardinality(togo[j])]
         IN [s EXCEPT !.it.H = IF s.it.skip = 0 THEN Take(s.it.r, @, k, left) ELSE @,
                      !.it.togo = togo, !.it.pos = @ + 1, !.it.seq = Append(@, e.x)]
    [] e.ev = "gone" -> [s EXCEPT !.ks = [k \in Keys(s) |-> [@[k] EXCEPT !.bad = @ \/ s.ks[k].kid \in IdSet(e.kids)]],
                                  !.orders = [c \in {} |-> [seq |-> <<>>, ended |-> FALSE]]]
    [] e.ev = "kill" -> [s EXCEPT !.it.kill = TRUE]
    [] e.ev = "end" -> IF s.it.open THEN Finish(s, ~s.it.kill) ELSE s
    [] e.ev = "fail" -> Finish(s, FALSE)
    [] e.ev = "drop" -> Finish(s, FALSE)
    [] OTHER -> s
VARIABLES t, i, s, bad
INSTANCE TraceMachine
=============================================================================
