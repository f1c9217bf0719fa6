---------------------------- MODULE ChunkGenModel ---------------------------
(* The design of chunk generation: per-key cursors into the index, greedy   *)
(* filling of the components in key order, redistribution of what exhausted *)
(* components miss (best effort), giving up (strict). One action per step   *)
(* of the algorithm; the clauses of ChunkGen are checked on every outcome,  *)
(* for every table, mixture, and mixture change within the constants.       *)
EXTENDS ChunkGen, TLC

CONSTANTS MaxPerKey,   \* samples per combination of property values
          Sizes,       \* chunk sizes
          MaxChanges   \* mixture changes per stream

(* Data keys: two properties p and q; k3 has both, k4 a second value of p   *)
DataKeys == << << <<"p", <<"a">>>> >>, << <<"p", <<"b">>>> >>, << <<"p", <<"b">>>>, <<"q", <<"x">>>> >> >>
MixKeys == << << <<"p", <<"a">>>> >>, << <<"p", <<"b">>>> >>, << <<"q", <<"x">>>> >> >>

NK == Len(DataKeys)
NM == Len(MixKeys)

(* Sample ids: 10 * key + n *)
Comps(cnt) == [c \in 1..NK |-> [props |-> DataKeys[c], ids |-> [n \in 1..cnt[c] |-> 10 * c + n]]]

StaticMixes ==
  {[kind |-> "static", size |-> z, strict |-> st, den |-> 0, slack |-> 0, keys |-> [m \in 1..NM |-> [props |-> MixKeys[m], rows |-> r[m], num |-> 0]]]
     : z \in Sizes, st \in BOOLEAN, r \in [1..NM -> 0..4]}
Mixes == {m \in StaticMixes : SumSeq([k \in DOMAIN m.keys |-> m.keys[k].rows]) = m.size}
         \cup {[kind |-> "arbitrary", size |-> z, strict |-> FALSE, den |-> 0, slack |-> 0, keys |-> <<>>] : z \in Sizes}

VARIABLES comps,   \* the query result
          pos,     \* per data key: samples taken so far
          given, unc, mix, changes,
          phase,   \* "idle", "fill", "done"
          play,    \* mixture keys still in play (best effort drops exhausted ones)
          need, rows, got, cur, progress,
          fails, out
vars == <<comps, pos, given, unc, mix, changes, phase, play, need, rows, got, cur, progress, fails, out>>

NoOut == [kind |-> "nothing", bad |-> {}]
Init ==
  /\ \E cnt \in [1..NK -> 0..MaxPerKey] : comps = Comps(cnt)
  /\ pos = [c \in 1..NK |-> 0]
  /\ given = {} /\ unc = {} /\ changes = 0
  /\ mix \in Mixes
  /\ phase = "idle" /\ play = {} /\ need = <<>> /\ rows = <<>> /\ got = <<>> /\ cur = 0 /\ progress = FALSE
  /\ fails = 0 /\ out = NoOut

LeftOf(c) == Len(comps[c].ids) - pos[c]
Take(c, n) == {comps[c].ids[x] : x \in (pos[c] + 1)..(pos[c] + n)}
Min(a, b) == IF a < b THEN a ELSE b

ChangeMixture ==
  /\ phase \in {"idle", "ended"} /\ changes < MaxChanges
  /\ phase' = IF phase = "ended" /\ mix.kind = "arbitrary" THEN "ended" ELSE "idle"
  /\ mix' \in Mixes \ {mix}
  /\ changes' = changes + 1 /\ out' = NoOut
  /\ UNCHANGED <<comps, pos, given, unc, play, need, rows, got, cur, progress, fails>>

(* ------------------------------------------------------ static mixtures  *)
Begin ==
  /\ phase = "idle" /\ mix.kind = "static"
  /\ phase' = "fill" /\ play' = 1..NM
  /\ need' = [m \in 1..NM |-> mix.keys[m].rows]
  /\ rows' = need'
  /\ got' = [m \in 1..NM |-> <<>>]
  /\ cur' = 1 /\ progress' = TRUE /\ out' = NoOut
  /\ UNCHANGED <<comps, pos, given, unc, mix, changes, fails>>

(* Pull data for component cur from all data keys it matches, in key order  *)
RECURSIVE Pull(_, _, _, _)
Pull(c, n, p, acc) ==
  IF c > NK \/ n = 0 THEN [n |-> n, p |-> p, acc |-> acc] ELSE
  IF ~Matches(MixKeys[cur], DataKeys[c]) THEN Pull(c + 1, n, p, acc) ELSE
  LET k == Min(n, Len(comps[c].ids) - p[c])
  IN Pull(c + 1, n - k, [p EXCEPT ![c] = @ + k], acc \o SubSeq(comps[c].ids, p[c] + 1, p[c] + k))

(* Missing samples of an exhausted component go to the others by ratio      *)
(* (largest remainders first; ties are broken by key order)                 *)
Distribute(n, ks) ==
  LET tot == LET RECURSIVE S(_)
                 S(x) == IF x = {} THEN 0 ELSE LET y == CHOOSE y \in x : TRUE IN rows[y] + S(x \ {y})
             IN S(ks)
      w(k) == IF tot > 0 THEN rows[k] ELSE 1
      W == IF tot > 0 THEN tot ELSE Cardinality(ks)
      fl == [k \in ks |-> (n * w(k)) \div W]
      fr == [k \in ks |-> (n * w(k)) % W]
      used == LET RECURSIVE S(_)
                  S(x) == IF x = {} THEN 0 ELSE LET y == CHOOSE y \in x : TRUE IN fl[y] + S(x \ {y})
              IN S(ks)
      rank(k) == Cardinality({j \in ks : fr[j] > fr[k] \/ (fr[j] = fr[k] /\ j < k)})
  IN [k \in ks |-> fl[k] + (IF rank(k) < n - used THEN 1 ELSE 0)]

Fill ==
  /\ phase = "fill"
  /\ cur <= NM /\ (\E k \in play : need[k] > 0)
  /\ UNCHANGED <<comps, given, unc, mix, changes, fails, out>>
  /\ IF cur \notin play \/ need[cur] = 0
     THEN cur' = cur + 1 /\ UNCHANGED <<pos, phase, play, need, rows, got, progress>>
     ELSE LET r == Pull(1, need[cur], pos, <<>>) IN
          /\ pos' = r.p
          /\ got' = [got EXCEPT ![cur] = @ \o r.acc]
          /\ phase' = phase
          /\ IF r.n = 0
             THEN need' = [need EXCEPT ![cur] = 0] /\ cur' = cur + 1 /\ progress' = TRUE /\ UNCHANGED <<play, rows>>
             ELSE IF mix.strict
             THEN \* restart with the first component as long as there is progress
                  /\ need' = [need EXCEPT ![cur] = r.n]
                  /\ IF progress \/ r.acc # <<>> THEN cur' = 1 /\ progress' = FALSE ELSE cur' = NM + 1 /\ progress' = FALSE
                  /\ UNCHANGED <<play, rows>>
             ELSE LET rest == play \ {cur}
                      d == IF rest = {} THEN <<>> ELSE Distribute(r.n, rest) IN
                  /\ play' = rest
                  /\ need' = [k \in 1..NM |-> IF k \in rest THEN need[k] + d[k] ELSE 0]
                  /\ rows' = [k \in 1..NM |-> IF k \in rest THEN rows[k] + d[k] ELSE IF k = cur THEN rows[k] - r.n ELSE rows[k]]
                  /\ cur' = 1 /\ progress' = TRUE

Chunk == LET ks == {k \in 1..NM : got[k] # <<>>}
             RECURSIVE Build(_)
             Build(k) == IF k > NM THEN <<>> ELSE
                         (IF got[k] = <<>> THEN <<>> ELSE <<[props |-> MixKeys[k], ids |-> got[k], rep |-> rows[k]]>>) \o Build(k + 1)
         IN Build(1)

Complete == play # {} /\ \A k \in play : need[k] = 0

Deliver ==
  /\ phase = "fill" /\ Complete
  /\ out' = [kind |-> "chunk", bad |-> ChunkFailed(comps, given, unc, mix, Chunk, TRUE, 0)]
  /\ given' = given \cup ChunkIds(Chunk)
  /\ phase' = "idle" /\ fails' = 0
  /\ play' = {} /\ need' = <<>> /\ rows' = <<>> /\ got' = <<>> /\ cur' = 0 /\ progress' = FALSE
  /\ UNCHANGED <<comps, pos, unc, mix, changes>>

GiveUp ==
  /\ phase = "fill" /\ ~Complete
  /\ play = {} \/ (cur > NM /\ ~progress)
  /\ out' = [kind |-> "none", bad |-> NoneFailed(comps, given, unc, mix)]
  /\ unc' = unc \cup NoneUncertain(comps, given, mix)
  /\ fails' = fails + 1
  /\ phase' = "ended"
  /\ play' = {} /\ need' = <<>> /\ rows' = <<>> /\ got' = <<>> /\ cur' = 0 /\ progress' = FALSE
  /\ UNCHANGED <<comps, pos, given, mix, changes>>

(* --------------------------------------------------- arbitrary mixtures  *)
ArbitraryChunk ==
  /\ phase = "idle" /\ mix.kind = "arbitrary"
  /\ \E c \in 1..NK :
       /\ LeftOf(c) > 0
       /\ LET n == Min(mix.size, LeftOf(c))
              ch == <<[props |-> DataKeys[c], ids |-> SubSeq(comps[c].ids, pos[c] + 1, pos[c] + n), rep |-> -1]>> IN
          /\ out' = [kind |-> "chunk", bad |-> ChunkFailed(comps, given, unc, mix, ch, FALSE, 0)]
          /\ pos' = [pos EXCEPT ![c] = @ + n]
          /\ given' = given \cup ChunkIds(ch)
  /\ UNCHANGED <<comps, unc, mix, changes, phase, play, need, rows, got, cur, progress, fails>>

ArbitraryEnd ==
  /\ phase = "idle" /\ mix.kind = "arbitrary" /\ \A c \in 1..NK : LeftOf(c) = 0
  /\ out' = [kind |-> "end", bad |-> EndFailed(comps, given, unc, mix)]
  /\ phase' = "ended"
  /\ UNCHANGED <<comps, pos, given, unc, mix, changes, play, need, rows, got, cur, progress, fails>>

Next == ChangeMixture \/ Begin \/ Fill \/ Deliver \/ GiveUp \/ ArbitraryChunk \/ ArbitraryEnd
Spec == Init /\ [][Next]_vars /\ WF_vars(Begin \/ Fill \/ Deliver \/ GiveUp \/ ArbitraryChunk \/ ArbitraryEnd)

(* ----------------------------------------------------------- properties  *)
OutcomeAllowed == out.bad = {}
NothingTwice == given \subseteq AllIds(comps)
EventuallyEnds == <>(phase = "ended")
=============================================================================
