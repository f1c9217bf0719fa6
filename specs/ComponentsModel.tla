--------------------------- MODULE ComponentsModel --------------------------
(* All triples of components over a few properties and values, given in     *)
(* every order: the order is a total one and knows nothing of how they were *)
(* given; components that are the same match the same data.                 *)
EXTENDS Components, TLC
CONSTANTS Properties, Values, MaxVals
VARIABLES n, a, b, c
vars == <<n, a, b, c>>

NoDup(q) == \A i, j \in DOMAIN q : i # j => q[i] # q[j]
ValSeqs == {q \in UNION {[1..k -> Values] : k \in 0..MaxVals} : NoDup(q)}
Entries == [p : Properties, vs : ValSeqs]
Given == {q \in UNION {[1..k -> Entries] : k \in 0..Cardinality(Properties)} : \A i, j \in DOMAIN q : i # j => q[i].p # q[j].p}
Init == n = 1 /\ a \in Given /\ b = <<>> /\ c = <<>>
Second == n = 1 /\ n' = 2 /\ b' \in Given /\ UNCHANGED <<a, c>>
Third == n = 2 /\ n' = 3 /\ c' \in Given /\ UNCHANGED <<a, b>>
Next == Second \/ Third
Spec == Init /\ [][Next]_vars

B == n >= 2
C == n = 3
Reflexive == Same(a, a) /\ Matches(a, a) /\ ~Before(a, a)
Total == B => (Same(a, b) <=> (~Before(a, b) /\ ~Before(b, a))) /\ ~(Before(a, b) /\ Before(b, a))
Transitive == C => (Before(a, b) /\ Before(b, c) => Before(a, c)) /\ (Same(a, b) /\ Same(b, c) => Same(a, c))
Representation == C /\ Same(a, b) => (Before(a, c) <=> Before(b, c)) /\ (Before(c, a) <=> Before(c, b))
                                    /\ (Matches(a, c) <=> Matches(b, c)) /\ (Matches(c, a) <=> Matches(c, b))
SameMatch == B /\ Same(a, b) => Matches(a, b) /\ Matches(b, a)
(* Naming more properties matches less, more values of one more *)
Narrower == B => \A i \in DOMAIN a : LET less == SubSeq(a, 1, i - 1) \o SubSeq(a, i + 1, Len(a)) IN Matches(a, b) => Matches(less, b)
SpecificFirst == B => (Len(a) < Len(b) => Before(a, b))
=============================================================================
