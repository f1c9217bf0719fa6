----------------------------- MODULE SharesModel ----------------------------
(* Rounding as built: all shares are rounded down, then the samples left    *)
(* are handed out one by one in the order of the fractions. Flat mixtures,  *)
(* trees (flattened first) and changes of the chunk size afterwards.        *)
EXTENDS Shares, TLC
CONSTANTS MaxComp, MaxDen, MaxSize

VARIABLES W, size, pc, c, given, changes
vars == <<W, size, pc, c, given, changes>>

Flat == {w \in UNION {[1..k -> 0..MaxDen] : k \in 1..MaxComp} : Total(w) \in 1..MaxDen}
(* two levels: every component of the first one may have a second one *)
Nodes(d, k) == {w \in UNION {[1..m -> 0..d] : m \in 1..k} : Total(w) = d}
Subs(d) == {<<>>} \cup {[i \in DOMAIN w |-> [w |-> w[i], sub |-> <<>>]] : w \in Nodes(d, 2)}
Trees(d) == UNION {{[i \in DOMAIN w |-> [w |-> w[i], sub |-> f[i]]] : f \in [DOMAIN w -> Subs(d)]} : w \in Nodes(d, 2)}

Init ==
  /\ W \in Flat \cup UNION {{Leaves(tr, d, Depth(tr)) : tr \in Trees(d)} : d \in 1..3}
  /\ size \in 1..MaxSize /\ pc = "floor" /\ c = [k \in DOMAIN W |-> 0] /\ given = {} /\ changes = 1

Left == size - Total(c)
Round ==
  /\ pc = "floor"
  /\ c' = [k \in DOMAIN W |-> Floor(W, size, k)] /\ pc' = "hand" /\ given' = {}
  /\ UNCHANGED <<W, size, changes>>
HandOut ==
  /\ pc = "hand" /\ Left > 0
  /\ \E k \in DOMAIN W \ given :
       /\ \A l \in DOMAIN W \ given : Rest(W, size, l) <= Rest(W, size, k)
       /\ c' = [c EXCEPT ![k] = @ + 1] /\ given' = given \cup {k}
  /\ UNCHANGED <<W, size, pc, changes>>
Done == pc = "hand" /\ Left = 0 /\ pc' = "done" /\ UNCHANGED <<W, size, c, given, changes>>
Resize ==      \* computed anew from the shares, not from the rows
  /\ pc = "done" /\ changes > 0
  /\ \E n \in 1..MaxSize : size' = n
  /\ pc' = "floor" /\ c' = [k \in DOMAIN W |-> 0] /\ given' = {} /\ changes' = changes - 1 /\ UNCHANGED W
Next == Round \/ HandOut \/ Done \/ Resize
Spec == Init /\ [][Next]_vars /\ WF_vars(Round \/ HandOut \/ Done)

IsFair == pc = "done" => Fair(c, W, size)
NeverTooMany == pc = "hand" => Left >= 0 /\ Left < Len(W)         \* nobody gets two
ZeroStaysZero == pc = "done" => \A k \in DOMAIN W : W[k] = 0 => c[k] = 0
Whole == pc = "done" => \A k \in DOMAIN W : Rest(W, size, k) = 0 => c[k] * Total(W) = size * W[k]
Ends == <>(pc = "done")
=============================================================================
