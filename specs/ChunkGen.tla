------------------------------ MODULE ChunkGen ------------------------------
(* Abstract state machine of chunk generation: what a chunk handed out may  *)
(* be, given the data not handed out yet and the mixture in force.          *)
(* The operators Chunk*Failed return the set of clauses an observed (or     *)
(* modelled) chunk violates; the empty set means the step is allowed.       *)
EXTENDS Integers, Sequences, FiniteSets

Rng(f) == {f[x] : x \in DOMAIN f}

RECURSIVE SumSeq(_)
SumSeq(q) == IF q = <<>> THEN 0 ELSE Head(q) + SumSeq(Tail(q))

(* A key is a sequence of <<property, <<values>>>>.  A mixture component mk *)
(* matches data dk if each of its properties has a value in common with it. *)
Matches(mk, dk) ==
  \A p \in Rng(mk) : \E q \in Rng(dk) :
     /\ p[1] = q[1]
     /\ \/ Rng(p[2]) \cap Rng(q[2]) # {}
        \/ Len(p[2]) = 0 /\ Len(q[2]) = 0

SameKey(a, b) == {<<p[1], Rng(p[2])>> : p \in Rng(a)} = {<<p[1], Rng(p[2])>> : p \in Rng(b)}

(* comps: sequence of [props, ids]; the ground truth of the query result.   *)
AllIds(comps) == UNION {Rng(comps[c].ids) : c \in DOMAIN comps}
IdsMatching(comps, mk) == UNION {Rng(comps[c].ids) : c \in {d \in DOMAIN comps : Matches(mk, comps[d].props)}}
IdsOfKey(comps, k) == UNION {Rng(comps[c].ids) : c \in {d \in DOMAIN comps : SameKey(k, comps[d].props)}}

(* chunk: sequence of [props, ids, rep] (rep: reported rows, -1 if none)    *)
ChunkIds(ch) == UNION {Rng(ch[k].ids) : k \in DOMAIN ch}
ChunkLen(ch) == SumSeq([k \in DOMAIN ch |-> Len(ch[k].ids)])

(* mix: [kind, size, strict, keys : Seq([props, rows, num]), den]           *)
(* rows: prescribed samples per chunk, num/den: the requested share         *)
Disjoint(comps, mix) ==
  \A a, b \in DOMAIN mix.keys : a # b => IdsMatching(comps, mix.keys[a].props) \cap IdsMatching(comps, mix.keys[b].props) = {}

Abs(x) == IF x < 0 THEN -x ELSE x

(* ------------------------------------------------ prescription of rows   *)
PrescriptionFailed(mix) ==
  IF mix.kind = "arbitrary" THEN {} ELSE
  (IF SumSeq([k \in DOMAIN mix.keys |-> mix.keys[k].rows]) = mix.size THEN {} ELSE {"prescribed-rows-do-not-sum-to-chunk-size"})
  \cup (IF \A k \in DOMAIN mix.keys : mix.keys[k].rows >= 0 THEN {} ELSE {"negative-rows"})
  \cup (IF mix.den = 0 \/ \A k \in DOMAIN mix.keys : Abs(mix.keys[k].rows * mix.den - mix.keys[k].num * mix.size) < mix.den * (1 + mix.slack)
        THEN {} ELSE {"prescribed-rows-deviate-from-share"})

(* --------------------------------------------------- clauses of a chunk  *)
(* given: samples handed out before; unc: samples possibly dropped while    *)
(* failing to generate a chunk before (their fate is not prescribed)        *)
RowsOf(ch, key) == SumSeq([k \in DOMAIN ch |-> IF SameKey(ch[k].props, key) THEN Len(ch[k].ids) ELSE 0])

CommonFailed(comps, given, ch) ==
  LET ids == ChunkIds(ch) IN
  (IF ChunkLen(ch) = Cardinality(ids) THEN {} ELSE {"sample-twice-in-chunk"})
  \cup (IF ids \cap given = {} THEN {} ELSE {"sample-repeated"})
  \cup (IF ids \subseteq AllIds(comps) THEN {} ELSE {"sample-not-in-result"})

ArbitraryFailed(comps, given, unc, mix, ch) ==
  (IF Len(ch) = 1 THEN {} ELSE {"arbitrary-chunk-mixes-keys"})
  \cup (IF \A k \in DOMAIN ch : Rng(ch[k].ids) \subseteq IdsOfKey(comps, ch[k].props) THEN {} ELSE {"sample-under-wrong-key"})
  \cup (IF ChunkLen(ch) > 0 THEN {} ELSE {"empty-chunk"})
  \cup (IF ChunkLen(ch) <= mix.size THEN {} ELSE {"chunk-too-large"})
  \cup (IF \/ ChunkLen(ch) >= mix.size
           \/ \A k \in DOMAIN ch : IdsOfKey(comps, ch[k].props) \ (given \cup ChunkIds(ch)) \subseteq unc
        THEN {} ELSE {"short-chunk-before-key-is-exhausted"})

WrongKeyFailed(comps, mix, ch) ==
  (IF \A k \in DOMAIN ch : \E m \in DOMAIN mix.keys : SameKey(mix.keys[m].props, ch[k].props) THEN {} ELSE {"key-not-in-mixture"})
  \cup (IF \A k \in DOMAIN ch : Rng(ch[k].ids) \subseteq IdsMatching(comps, ch[k].props) THEN {} ELSE {"sample-under-wrong-key"})

StrictFailed(comps, given, unc, mix, ch) ==
  WrongKeyFailed(comps, mix, ch)
  \cup (IF ChunkLen(ch) = mix.size THEN {} ELSE {"strict-chunk-size"})
  \cup (IF \A m \in DOMAIN mix.keys : RowsOf(ch, mix.keys[m].props) = mix.keys[m].rows THEN {} ELSE {"strict-composition"})

(* Best effort: p prescribed, c actual rows of component m                  *)
Left(comps, given, unc, ch, key) == IdsMatching(comps, key) \ (given \cup ChunkIds(ch) \cup unc)
ShortKeys(mix, ch) == {m \in DOMAIN mix.keys : RowsOf(ch, mix.keys[m].props) < mix.keys[m].rows}
Extra(mix, ch, m) == RowsOf(ch, mix.keys[m].props) - mix.keys[m].rows

(* Components with data left have not run dry: they all receive their       *)
(* proportional part of what is missing, up to rounding (one sample per     *)
(* round of redistribution, at most one round per exhausted component).     *)
Proportional(comps, given, unc, mix, ch) ==
  LET alive == {m \in DOMAIN mix.keys : Left(comps, given, unc, ch, mix.keys[m].props) # {}}
      dry == (DOMAIN mix.keys) \ alive
      tol == Cardinality(dry) + 1
  IN \A a, b \in alive :
       LET ra == mix.keys[a].rows rb == mix.keys[b].rows IN
       (ra > 0 /\ rb > 0) => Abs(Extra(mix, ch, a) * rb - Extra(mix, ch, b) * ra) <= tol * (ra + rb)

BestEffortFailed(comps, given, unc, mix, ch) ==
  WrongKeyFailed(comps, mix, ch)
  \cup (IF ChunkLen(ch) = mix.size THEN {} ELSE {"best-effort-chunk-size"})
  \cup (IF \A m \in ShortKeys(mix, ch) : Left(comps, given, unc, ch, mix.keys[m].props) = {} THEN {} ELSE {"short-but-not-exhausted"})
  \cup (IF ShortKeys(mix, ch) = {} => \A m \in DOMAIN mix.keys : Extra(mix, ch, m) = 0 THEN {} ELSE {"excess-without-shortage"})
  \cup (IF Disjoint(comps, mix) /\ unc = {} => Proportional(comps, given, unc, mix, ch) THEN {} ELSE {"not-proportional"})

ReportFailed(mix, ch, hasmix, repother) ==
  IF mix.kind = "arbitrary" THEN (IF hasmix THEN {"mixture-reported-for-arbitrary-chunk"} ELSE {}) ELSE
  (IF hasmix THEN {} ELSE {"no-mixture-reported"})
  \cup (IF \A k \in DOMAIN ch : ch[k].rep = Len(ch[k].ids) THEN {} ELSE {"reported-mixture-is-not-composition"})
  \cup (IF repother = 0 THEN {} ELSE {"reported-mixture-has-absent-components"})

ChunkFailed(comps, given, unc, mix, ch, hasmix, repother) ==
  CommonFailed(comps, given, ch)
  \cup (CASE mix.kind = "arbitrary" -> ArbitraryFailed(comps, given, unc, mix, ch)
          [] mix.strict -> StrictFailed(comps, given, unc, mix, ch)
          [] OTHER -> BestEffortFailed(comps, given, unc, mix, ch))
  \cup ReportFailed(mix, ch, hasmix, repother)

(* ------------------------------------------------ no chunk               *)
(* av: samples certainly available for a key                                *)
Avail(comps, given, unc, key) == IdsMatching(comps, key) \ (given \cup unc)
NoneFailed(comps, given, unc, mix) ==
  CASE mix.kind = "arbitrary" -> {"no-chunk-from-arbitrary-mixture"}
    [] mix.strict ->
         IF Disjoint(comps, mix) /\ \A m \in DOMAIN mix.keys : Cardinality(Avail(comps, given, unc, mix.keys[m].props)) >= mix.keys[m].rows
         THEN {"no-chunk-although-possible"} ELSE {}
    [] OTHER ->
         IF Cardinality(UNION {Avail(comps, given, unc, mix.keys[m].props) : m \in DOMAIN mix.keys}) >= mix.size
         THEN {"no-chunk-although-possible"} ELSE {}
NoneUncertain(comps, given, mix) ==
  UNION {IdsMatching(comps, mix.keys[m].props) : m \in DOMAIN mix.keys} \ given

EndFailed(comps, given, unc, mix) ==
  IF mix.kind # "arbitrary" \/ AllIds(comps) \ given \subseteq unc THEN {} ELSE {"arbitrary-stream-ends-early"}
=============================================================================
