----------------------------- MODULE MixtureTrace ---------------------------
(* Mixtures and components of the real library. Events:                     *)
(*  flat  W, den, size, refused, counts, more   shares W[k] / den; rows per *)
(*        component (0: not listed), number of components nobody asked for  *)
(*  tree  tree, den, size, refused, counts, more    leaves in order         *)
(*  inferred  W, size, counts, more     W: samples per component            *)
(*  ratio W, size, counts       utility distributing by ratios              *)
(*  copy  same                  after serialization                         *)
(*  keys  comps, eq, lt, hash, text     matrices over all pairs; hash and   *)
(*        text by number of the first component with it                     *)
(*  keycopy same *)
EXTENDS Shares, Components, Tracing
InitState(cfg) == [n |-> 0]
Counts(e, W) ==
  (IF e.more # 0 THEN {"unknown-component"} ELSE {})
  \cup (IF ~NonNegative(e.counts) THEN {"negative-count"} ELSE {})
  \cup (IF ~Exact(e.counts, e.size) THEN {"not-chunk-size"} ELSE {})
  \cup (IF ~Quota(e.counts, W, e.size) THEN {"off-by-a-sample"} ELSE {})
  \cup (IF ~Proportional(e.counts, W, e.size) THEN {"not-proportional"} ELSE {})
Keys(e) ==
  LET D == DOMAIN e.comps  K(i) == e.comps[i] IN
  (IF \E i, j \in D : e.eq[i][j] # Matches(K(i), K(j)) THEN {"wrong-match"} ELSE {})
  \cup (IF \E i, j \in D : Same(K(i), K(j)) /\ e.hash[i] # e.hash[j] THEN {"equal-but-other-hash"} ELSE {})
  \cup (IF \E i, j \in D : Same(K(i), K(j)) /\ e.text[i] # e.text[j] THEN {"equal-but-other-text"} ELSE {})
  \cup (IF \E i, j \in D : Same(K(i), K(j)) = (e.lt[i][j] \/ e.lt[j][i]) THEN {"order-not-total"} ELSE {})
  \cup (IF \E i, j \in D : e.lt[i][j] /\ e.lt[j][i] THEN {"order-contradicts-itself"} ELSE {})
  \cup (IF \E i, j, k \in D : e.lt[i][j] /\ e.lt[j][k] /\ ~e.lt[i][k] THEN {"order-not-transitive"} ELSE {})
  \cup (IF \E i, j \in D : e.lt[i][j] # Before(K(i), K(j)) THEN {"other-order"} ELSE {})
Failed(s, e) ==
  CASE e.ev = "flat" -> IF e.refused THEN (IF Valid(e.W, e.den) THEN {"valid-mixture-refused"} ELSE {})
                        ELSE IF Clearly(e.W, e.den) THEN {"invalid-mixture-accepted"} ELSE Counts(e, e.W)
    [] e.ev = "tree" -> IF e.refused THEN {"valid-mixture-refused"} ELSE Counts(e, Leaves(e.tree, e.den, Depth(e.tree)))
    [] e.ev = "inferred" -> Counts(e, e.W)
    [] e.ev = "ratio" -> Counts(e, e.W)
    [] e.ev = "copy" -> IF ~e.same THEN {"mixture-changed-by-serialization"} ELSE {}
    [] e.ev = "keycopy" -> IF ~e.same THEN {"component-changed-by-serialization"} ELSE {}
    [] e.ev = "keys" -> Keys(e)
    [] OTHER -> CrashFailed(e)
Apply(s, e) == s
VARIABLES t, i, s, bad
INSTANCE TraceMachine
=============================================================================
