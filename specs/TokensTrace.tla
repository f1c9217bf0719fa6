------------------------------ MODULE TokensTrace ---------------------------
(* Token sequences of the real system, of single iterators and of chunks.   *)
(* Events:                                                                  *)
(*  chunk  keys: [kid, rows, ids]   ids: tokens per sample, in the order of *)
(*         reading; windowed: sequences alternate as the mixture demands    *)
(*  open   L, overlap, atleast, bos, eos (<<>> or <<id>>), skip, how, fails *)
(*         fails: a sample cannot be read                                   *)
(*  seq    idx, kid, toks           a sequence                              *)
(*  end / fail / drop                                                       *)
EXTENDS Reading, Tracing
T == INSTANCE Tokens

InitState(cfg) == [ks |-> <<>>, windowed |-> FALSE, it |-> [open |-> FALSE], full |-> [c \in {} |-> <<>>], before |-> [c \in {} |-> 0]]
Keys(s) == DOMAIN s.ks
KeyOf(s, kid) == CHOOSE k \in Keys(s) : s.ks[k].kid = kid

Begin(s, e) ==
  LET st == [k \in Keys(s) |-> T!Stream(s.ks[k].ids, e.bos, e.eos)]
      cnt == [k \in Keys(s) |-> T!Count(Len(st[k]), e.L, e.overlap, e.atleast)]
      rows == [k \in Keys(s) |-> s.ks[k].rows]
      r == IF s.windowed THEN InWindows(Total(rows), rows, TRUE) ELSE InSequence(rows)
  IN [open |-> TRUE, p |-> e, st |-> st, cnt |-> cnt, given |-> Zero(rows), pos |-> e.skip, seq |-> <<>>,
      r |-> r, H |-> IF e.skip > 0 \/ e.fails THEN {} ELSE Settle(r, [used |-> Zero(rows), extra |-> 0, free |-> FALSE, done |-> FALSE], cnt, 3)]
Conf(e) == <<e.L, e.overlap, e.atleast, e.bos, e.eos>>
Left(it) == [k \in DOMAIN it.cnt |-> it.cnt[k] - it.given[k]]
Known(s) == Conf(s.it.p) \in DOMAIN s.full

SeqFailed(s, e) ==
  LET it == s.it  p == it.p IN
  (IF e.idx # it.pos THEN {"sequence-index"} ELSE {})
  \cup (IF p.skip > 0 THEN (IF Known(s) THEN LET f == s.full[Conf(p)] IN
                              IF it.pos >= Len(f) THEN {"too-many-sequences"} ELSE IF f[it.pos + 1] # <<e.kid, e.toks>> THEN {"order-differs"} ELSE {}
                            ELSE {})
        ELSE IF ~\E k \in Keys(s) : s.ks[k].kid = e.kid THEN {"unknown-key"}
        ELSE LET k == KeyOf(s, e.kid)  i == it.given[k] + 1 IN
             (IF i > it.cnt[k] THEN {"too-many-sequences"}
              ELSE IF ~T!IsSequence(e.toks, i, it.st[k], p.L, p.overlap, p.atleast) THEN {"wrong-tokens"}
              ELSE IF ~p.fails /\ Take(it.r, it.H, k, [Left(it) EXCEPT ![k] = @ - 1]) = {} THEN {"not-this-keys-turn"} ELSE {})
             \cup (IF Known(s) /\ (Len(it.seq) >= Len(s.full[Conf(p)]) \/ s.full[Conf(p)][Len(it.seq) + 1] # <<e.kid, e.toks>>)
                   THEN {"order-differs"} ELSE {}))
EndFailed(s) ==
  LET it == s.it IN
  IF it.p.fails THEN {"failure-concealed"}
  ELSE IF it.p.skip > 0 THEN (IF Known(s) /\ it.pos < Len(s.full[Conf(it.p)]) THEN {"ended-early"} ELSE {})
  ELSE IF s.windowed THEN (IF CanEnd(it.H) THEN {} ELSE {"ended-early"})
  ELSE IF Total(Left(it)) > 0 THEN {"ended-early"} ELSE {}

Failed(s, e) ==
  CASE e.ev \in {"chunk", "open", "drop"} -> {}
    [] e.ev = "seq" -> IF s.it.open THEN SeqFailed(s, e) ELSE {"sequence-after-end"}
    [] e.ev = "end" -> IF s.it.open THEN EndFailed(s) ELSE {}
    [] e.ev = "fail" -> IF ~s.it.open \/ ~s.it.p.fails THEN {"raised-exception"}
                        ELSE IF Known(s) /\ Len(s.it.seq) < Len(s.full[Conf(s.it.p)]) THEN {"ended-early"} ELSE {}
    [] OTHER -> CrashFailed(e)
Close(s) == [s EXCEPT !.it = [open |-> FALSE]]
Keep(s) == IF s.it.open /\ s.it.p.skip = 0 /\ ~Known(s) THEN [s EXCEPT !.full = (Conf(s.it.p) :> s.it.seq) @@ @, !.it = [open |-> FALSE]] ELSE Close(s)
Apply(s, e) ==
  CASE e.ev = "chunk" -> [s EXCEPT !.ks = e.keys, !.windowed = e.windowed, !.it = [open |-> FALSE], !.full = [c \in {} |-> <<>>]]
    [] e.ev = "open" -> [s EXCEPT !.it = Begin(s, e)]
    [] e.ev = "seq" -> IF s.it.p.skip > 0 THEN [s EXCEPT !.it.pos = @ + 1]
         ELSE LET k == KeyOf(s, e.kid) IN
              [s EXCEPT !.it.given[k] = @ + 1, !.it.pos = @ + 1, !.it.seq = Append(@, <<e.kid, e.toks>>),
                        !.it.H = IF s.it.p.fails THEN @ ELSE Take(s.it.r, @, k, [Left(s.it) EXCEPT ![k] = @ - 1])]
    [] e.ev \in {"end", "fail"} -> Keep(s)
    [] e.ev = "drop" -> Close(s)
    [] OTHER -> s
VARIABLES t, i, s, bad
INSTANCE TraceMachine
=============================================================================
