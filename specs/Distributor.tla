----------------------------- MODULE Distributor ----------------------------
(* Abstract state machine of a job: which chunk each worker of each node    *)
(* receives, what the server retains, and what checkpoints capture.         *)
(* The operators ...Failed return the clauses an observed (or modelled)     *)
(* step violates, as <<group, clause>>; ...Apply is the step itself.        *)
(*                                                                          *)
(* d.asg[<<g,w>>]     chunks assigned to worker w of group g, in order      *)
(* d.pos[<<g,n,w>>]   how many of them node n's worker has been given       *)
(* d.base[<<g,w>>]    those up to here lie before the restored checkpoint   *)
(* d.res[<<g,w>>]     [k, lo, hi]: chunk k is to be resumed at lo..hi       *)
(* d.hist             what the generator was asked so far                   *)
(* d.mem              outcomes seen per history: the generator is some      *)
(*                    deterministic function of it, also across restores    *)
(* d.rep, d.cur       reports for the checkpoint being taken, and its id    *)
(* d.saved, d.done, d.issued   checkpoints taken, seen complete, ids used   *)
(* d.live             ids given out since the start or the last restore     *)
EXTENDS Integers, Sequences, FiniteSets

Range(q) == {q[x] : x \in DOMAIN q}
GW(d) == (1..d.G) \X (1..d.W)
GN(d) == (1..d.G) \X (1..d.N)

NewDist(G, N, W) ==
  [G |-> G, N |-> N, W |-> W,
   asg |-> [x \in (1..G) \X (1..W) |-> <<>>],
   pos |-> [x \in (1..G) \X (1..N) \X (1..W) |-> 0],
   base |-> [x \in (1..G) \X (1..W) |-> 0],
   res |-> [x \in (1..G) \X (1..W) |-> [k |-> 0, lo |-> 0, hi |-> 0]],
   hist |-> <<>>, mem |-> {},
   rep |-> <<>>, cur |-> "", saved |-> <<>>, done |-> {}, issued |-> {}, live |-> {}]

MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxOf(S) == CHOOSE x \in S : \A y \in S : x >= y

(* ------------------------------------------------------------- requests  *)
IsGenerated(d, r) == d.pos[<<r.g, r.n, r.w>>] = Len(d.asg[<<r.g, r.w>>])
Assigned(d, c) == \E x \in GW(d) : c \in Range(d.asg[x])

(* What a node may still ask for, or refer to in a checkpoint               *)
Held(d, g, p) == {<<w, k>> \in (1..d.W) \X (1..40) :
                    k <= Len(d.asg[<<g, w>>]) /\ k > d.base[<<g, w>>] /\ \E n \in 1..d.N : k >= p[<<g, n, w>>]}
HeldChunks(d, g) == {d.asg[<<g, x[1]>>][x[2]] : x \in Held(d, g, d.pos)}

SkipFailed(d, r) ==
  LET v == d.res[<<r.g, r.w>>] k == d.pos[<<r.g, r.n, r.w>>] + 1 IN
  IF v.k = k THEN (IF r.skip >= v.lo /\ r.skip <= v.hi THEN {} ELSE {<<"C07", "resumes-at-wrong-sample">>})
             ELSE (IF r.skip = 0 THEN {} ELSE {<<"C07", "skips-samples-of-new-chunk">>})

Outcome(r) == <<r.res, r.c, r.mid>>
Diverges(d, r) == \E m \in d.mem : m.h = d.hist /\ m.o # Outcome(r)

RequestFailed(d, r) ==
  IF ~IsGenerated(d, r)
  THEN LET want == d.asg[<<r.g, r.w>>][d.pos[<<r.g, r.n, r.w>>] + 1] IN
       (IF r.res # "chunk" THEN {<<"C05", "node-misses-a-chunk-of-its-group">>, <<"C06", "chunk-not-available-any-more">>}
        ELSE IF r.c # want THEN {<<"C05", "node-receives-another-chunk-than-its-group">>, <<"C06", "chunk-not-available-any-more">>} ELSE {})
       \cup (IF d.res[<<r.g, r.w>>].k = d.pos[<<r.g, r.n, r.w>>] + 1 /\ (r.res # "chunk" \/ r.c # want)
             THEN {<<"C07", "worker-does-not-resume-with-its-chunk">>} ELSE {})
       \cup (IF r.res = "chunk" THEN SkipFailed(d, r) ELSE {})
  ELSE (IF r.res = "chunk" /\ Assigned(d, r.c) THEN {<<"C05", "chunk-handed-to-two-workers">>} ELSE {})
       \cup (IF Diverges(d, r) THEN {<<"C07", "stream-differs-from-uninterrupted-one">>} ELSE {})
       \cup (IF r.res = "chunk" THEN SkipFailed(d, r) ELSE {})

RequestApply(d, r) ==
  LET a == <<r.g, r.w>> p == <<r.g, r.n, r.w>> IN
  IF ~IsGenerated(d, r) THEN (IF r.res = "chunk" THEN [d EXCEPT !.pos[p] = @ + 1] ELSE d)
  ELSE [d EXCEPT !.mem = @ \cup {[h |-> d.hist, o |-> Outcome(r)]},
                 !.hist = Append(@, "g"),
                 !.asg[a] = IF r.res = "chunk" THEN Append(@, r.c) ELSE @,
                 !.pos[p] = IF r.res = "chunk" THEN @ + 1 ELSE @]

(* d: state after the request; held: the chunks retained for group g        *)
RetainFailed(d, g, held) ==
  (IF HeldChunks(d, g) \subseteq held THEN {} ELSE {<<"C06", "chunk-dropped-while-needed">>})
  \cup (IF held \subseteq HeldChunks(d, g) THEN {} ELSE {<<"C06", "chunk-kept-too-long">>})

(* ----------------------------------------------------------- checkpoints *)
Reported(d) == {<<x.g, x.n>> : x \in Range(d.rep)}
Consistent(d) == \A x \in GW(d) : \A n, m \in 1..d.N : d.pos[<<x[1], n, x[2]>>] = d.pos[<<x[1], m, x[2]>>]
Last(d, r) == Reported(d) \cup {<<r.g, r.n>>} = GN(d)

(* A worker that has not been given a chunk (since the restore) is not      *)
(* working on one                                                           *)
Working(d, x) == d.pos[<<x[1], 1, x[2]>>] > d.base[x]
Snapshot(d, reps) ==
  LET sts(x) == {r.st[x[2]] : r \in {q \in Range(reps) : q.g = x[1]}} IN
  [asg |-> d.asg, hist |-> d.hist,
   pos |-> [p \in DOMAIN d.pos |-> IF Working(d, <<p[1], p[3]>>) THEN d.pos[p] - 1 ELSE d.pos[p]],
   base |-> [x \in GW(d) |-> IF Working(d, x) THEN d.pos[<<x[1], 1, x[2]>>] - 1 ELSE d.base[x]],
   res |-> [x \in GW(d) |-> IF Working(d, x) THEN [k |-> d.pos[<<x[1], 1, x[2]>>], lo |-> MinOf(sts(x)), hi |-> MaxOf(sts(x))] ELSE d.res[x]]]

(* The report completes a checkpoint                                        *)
Takes(d, r) == <<r.g, r.n>> \notin Reported(d) /\ Last(d, r) /\ Consistent(d) /\ r.res = "id"

StatusFailed(d, r) ==
  IF <<r.g, r.n>> \in Reported(d) THEN (IF r.res = "reject" THEN {} ELSE {<<"C08", "second-report-accepted">>})
  ELSE IF Last(d, r) /\ ~Consistent(d) THEN (IF r.res = "reject" THEN {} ELSE {<<"C08", "inconsistent-checkpoint-accepted">>})
  ELSE (IF r.res # "id" THEN {<<"C08", "report-rejected">>}
        ELSE (IF d.cur # "" /\ r.id # d.cur THEN {<<"C08", "different-ids-for-one-checkpoint">>} ELSE {})
             \cup (IF d.cur = "" /\ r.id \in d.issued THEN {<<"C08", "checkpoint-id-reused">>} ELSE {}))

StatusApply(d, r) ==
  IF <<r.g, r.n>> \in Reported(d) THEN d ELSE
  LET reps == Append(d.rep, [g |-> r.g, n |-> r.n, st |-> r.st])
      id == IF r.res = "id" THEN r.id ELSE d.cur IN
  IF ~Last(d, r) THEN [d EXCEPT !.rep = reps, !.cur = id, !.issued = @ \cup {id}, !.live = @ \cup {id}]
  ELSE [d EXCEPT !.rep = <<>>, !.cur = "", !.issued = @ \cup {id}, !.live = @ \cup {id},
                 !.saved = IF Takes(d, r) THEN Append(SelectSeq(@, LAMBDA x : x.id # id), [id |-> id, snap |-> Snapshot(d, reps)]) ELSE @]

SavedIds(d) == {x.id : x \in Range(d.saved)}
SnapOf(d, id) == (CHOOSE x \in Range(d.saved) : x.id = id).snap

(* wait: polled until the answer cannot change any more                     *)
(* killed: a process writing checkpoints has been killed                    *)
PollFailed(d, r) ==
  (IF r.res = "true" /\ r.id \notin SavedIds(d) THEN {<<"C08", "completed-without-being-taken">>} ELSE {})
  \cup (IF r.res = "error" /\ ~r.killed THEN {<<"C08", "checkpoint-failed">>} ELSE {})
  \cup (IF r.id \in d.done /\ r.id \in d.live /\ r.res = "error" THEN {<<"C08", "completed-checkpoint-fails-later">>} ELSE {})
  \cup (IF r.wait /\ r.id \in SavedIds(d) /\ r.id \in d.live /\ r.res = "false" THEN {<<"C08", "checkpoint-never-completes">>} ELSE {})
  \cup (IF r.id \in d.done /\ r.id \in d.live /\ r.res = "false" THEN {<<"C08", "completed-checkpoint-incomplete-again">>} ELSE {})
PollApply(d, r) == IF r.res = "true" /\ r.disk THEN [d EXCEPT !.done = @ \cup {r.id}] ELSE d

RestoreFailed(d, r) ==
  IF r.id \in d.done /\ r.res # "ok" THEN {<<"C08", "completed-checkpoint-cannot-be-restored">>, <<"C07", "cannot-restore">>}
  ELSE IF r.res = "ok" /\ r.id \notin SavedIds(d) THEN {<<"C08", "restored-a-checkpoint-never-taken">>} ELSE {}
(* Ids given out for checkpoints that never completed may be given again    *)
RestoreApply(d, r) ==
  IF r.res # "ok" \/ r.id \notin SavedIds(d) THEN d ELSE
  LET s == SnapOf(d, r.id) IN
  [d EXCEPT !.asg = s.asg, !.pos = s.pos, !.base = s.base, !.res = s.res, !.hist = s.hist,
            !.rep = <<>>, !.cur = "", !.issued = d.done \cup {r.id}, !.live = {}]
=============================================================================
