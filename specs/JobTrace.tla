------------------------------- MODULE JobTrace -----------------------------
(* Jobs recorded from the code, checked against Distributor (who gets which *)
(* chunk, retention, checkpoints), Mixing (the mixture in force), ChunkGen  *)
(* (composition of newly generated chunks), and the key ids. cfg.want: the  *)
(* properties whose clauses are of interest.                                *)
EXTENDS Distributor, Mixing, KeyIds, Tracing

InitState(cfg) ==
  [d |-> NewDist(cfg.G, cfg.N, cfg.W), m |-> NewMixing(cfg.mixture), rows |-> cfg.rows, comps |-> cfg.comps,
   want |-> {cfg.want[k] : k \in DOMAIN cfg.want},
   given |-> {}, unc |-> {}, mid |-> -1, midrows |-> <<>>, kids |-> <<>>, snaps |-> <<>>, ref |-> FALSE, rhist |-> <<>>,
   dynamic |-> cfg.mixture.kind = "dynamic"]

Group(s) == IF s.m.mixture.kind = "schedule" THEN "C10" ELSE "C09"

(* -------------------------------------------------------------- key ids  *)
KidsFailed(s, e) == {<<"C11", c>> : c \in KeyIdsFailed(s.kids, e.kids)}

(* ---------------------------------------------------------- composition  *)
MixFailed(s, e) ==
  LET mix == InForce(s.m, s.rows) IN
  IF e.res = "chunk"
  THEN {<<Group(s), c>> : c \in ChunkFailed(s.comps, s.given, s.unc, mix, e.keys, e.hasmix, e.repother)}
       \cup (IF e.mid >= s.mid THEN {} ELSE {<<"C09", "mixture-id-decreases">>})
       \cup (IF s.mid >= 0 /\ s.midrows # s.rows /\ e.mid = s.mid THEN {<<"C09", "mixture-changed-without-new-id">>} ELSE {})
  ELSE {<<Group(s), c>> : c \in
          IF mix.kind = "arbitrary" THEN EndFailed(s.comps, s.given, s.unc, mix) ELSE NoneFailed(s.comps, s.given, s.unc, mix)}

RefDiverges(s, e) == \E x \in s.d.mem : x.h = s.rhist /\ x.o # <<e.res, e.c, e.mid>>

All(s, e) ==
  CASE e.ev = "req" ->
         RequestFailed(s.d, e) \cup KidsFailed(s, e)
         \cup (IF IsGenerated(s.d, e) THEN MixFailed(s, e) ELSE {})
         \cup (IF "C06" \in s.want
               THEN LET d2 == RequestApply(s.d, e)
                        H == UNION {HeldChunks(d2, g) : g \in 1..d2.G}
                        held == Rng(e.held) IN
                    (IF H \subseteq held THEN {} ELSE {<<"C06", "chunk-dropped-while-needed">>})
                    \cup (IF held \subseteq H THEN {} ELSE {<<"C06", "chunk-kept-too-long">>})
               ELSE {})
    [] e.ev = "fb" -> {<<Group(s), c>> : c \in MixingFailed(Feed(s.m, e.step, e.loss), e.rows)}
                          \cup (IF e.cur = Feed(s.m, e.step, e.loss).step THEN {} ELSE {<<"C09", "training-step-wrong">>})
    [] e.ev = "report" -> StatusFailed(s.d, e)
    [] e.ev = "poll" -> PollFailed(s.d, e)
    [] e.ev = "restore" -> RestoreFailed(s.d, e)
         \cup (IF e.res = "ok" /\ e.id \in {x.id : x \in Rng(s.snaps)}
               THEN LET sn == (CHOOSE x \in Rng(s.snaps) : x.id = e.id).s IN
                    IF sn.rows = e.rows THEN {} ELSE {<<"C07", "other-mixture-after-restore">>, <<Group(s), "other-mixture-after-restore">>}
               ELSE {})
    [] e.ev = "ref" -> IF RefDiverges(s, e) THEN {<<"C07", "stream-differs-from-uninterrupted-one">>} ELSE {}
    [] e.ev \in {"fresh", "rfb"} -> {}
    [] OTHER -> {<<"", "unknown-event">>}

Failed(s, e) ==
  IF IsCrash(e) THEN CrashFailed(e)
  ELSE {x[2] : x \in {y \in All(s, e) : y[1] \in s.want \/ y[1] = ""}}

SavedNow(s, e) == Takes(s.d, e)

Apply(s, e) ==
  CASE e.ev = "req" ->
         LET g == IsGenerated(s.d, e) mix == InForce(s.m, s.rows) IN
         [s EXCEPT !.d = RequestApply(@, e), !.kids = AddKids(@, e.kids),
                   !.given = IF g THEN @ \cup ChunkIds(e.keys) ELSE @,
                   !.unc = IF g /\ e.res = "end" /\ mix.kind # "arbitrary" THEN @ \cup NoneUncertain(s.comps, s.given, mix) ELSE @,
                   !.mid = IF g /\ e.res = "chunk" THEN e.mid ELSE @,
                   !.midrows = IF g /\ e.res = "chunk" THEN s.rows ELSE @]
    [] e.ev = "fb" -> [s EXCEPT !.m = Feed(@, e.step, e.loss), !.rows = e.rows, !.d.hist = Append(@, e.h)]
    [] e.ev = "report" ->
         [s EXCEPT !.d = StatusApply(@, e),
                   !.snaps = IF SavedNow(s, e) THEN Append(SelectSeq(@, LAMBDA x : x.id # e.id), [id |-> e.id, s |-> [rows |-> s.rows, m |-> s.m, given |-> s.given, unc |-> s.unc,
                                                                                   mid |-> s.mid, midrows |-> s.midrows, kids |-> s.kids]]) ELSE @]
    [] e.ev = "poll" -> [s EXCEPT !.d = PollApply(@, e)]
    [] e.ev = "restore" ->
         IF e.res # "ok" \/ e.id \notin {x.id : x \in Rng(s.snaps)} THEN s ELSE
         LET sn == (CHOOSE x \in Rng(s.snaps) : x.id = e.id).s IN
         [s EXCEPT !.d = RestoreApply(@, e), !.rows = e.rows, !.m = sn.m, !.given = sn.given, !.unc = sn.unc, !.mid = sn.mid,
                   !.midrows = sn.midrows, !.kids = sn.kids]
    [] e.ev = "fresh" -> [s EXCEPT !.rhist = <<>>]
    [] e.ev = "rfb" -> [s EXCEPT !.rhist = Append(@, e.h)]
    [] e.ev = "ref" -> [s EXCEPT !.rhist = Append(@, "g")]

VARIABLES t, i, s, bad
INSTANCE TraceMachine
=============================================================================
