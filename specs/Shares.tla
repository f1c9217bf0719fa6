------------------------------- MODULE Shares -------------------------------
(* How many samples of a chunk belong to each component. Components 1..n    *)
(* with weights W (their shares are W[k] / Sum(W)) and chunks of size n.    *)
EXTENDS Integers, Sequences, FiniteSets

RECURSIVE Total(_)
Total(q) == IF q = <<>> THEN 0 ELSE Head(q) + Total(Tail(q))

Floor(W, size, k) == (size * W[k]) \div Total(W)
Rest(W, size, k) == (size * W[k]) % Total(W)        \* fraction lost by rounding down, times Total(W)

NonNegative(c) == \A k \in DOMAIN c : c[k] >= 0
Exact(c, size) == Total(c) = size
(* Less than one sample from the exact share *)
Quota(c, W, size) == \A k \in DOMAIN c : LET d == c[k] * Total(W) - size * W[k] IN d < Total(W) /\ -d < Total(W)
(* The samples left after rounding down go to those who lost most by it *)
Proportional(c, W, size) ==
  \A k, l \in DOMAIN c : ~(/\ c[k] * Total(W) < size * W[k] /\ c[l] * Total(W) > size * W[l]
                           /\ Rest(W, size, k) > Rest(W, size, l))
Fair(c, W, size) == NonNegative(c) /\ Exact(c, size) /\ Quota(c, W, size) /\ Proportional(c, W, size)

(* Weights of the leaves of a tree of components: a node is a sequence of   *)
(* [w, sub], sub = <<>> for leaves; weights of each node sum up to den.     *)
RECURSIVE Pow(_, _), Depth(_), Leaves(_, _, _)
Pow(b, k) == IF k = 0 THEN 1 ELSE b * Pow(b, k - 1)
Depth(node) == IF node = <<>> THEN 0
               ELSE LET ds == {Depth(node[i].sub) : i \in DOMAIN node} IN 1 + CHOOSE d \in ds : \A x \in ds : x <= d
(* levels: how many levels of the whole tree there are from this node on *)
Leaves(node, den, levels) ==
  IF node = <<>> THEN <<>>
  ELSE LET n == node[1]
           mine == IF n.sub = <<>> THEN <<n.w * Pow(den, levels - 1)>>
                   ELSE LET sub == Leaves(n.sub, den, levels - 1) IN [i \in DOMAIN sub |-> n.w * sub[i]]
       IN mine \o Leaves(Tail(node), den, levels)

(* Shares as they are given: integers over a common denominator *)
Valid(W, den) == (\A k \in DOMAIN W : W[k] >= 0) /\ Total(W) = den
Clearly(W, den) ==                     \* clearly not shares
  (\E k \in DOMAIN W : W[k] < 0) \/ Total(W) * 100 > den * 101 \/ Total(W) * 100 < den * 99
=============================================================================
