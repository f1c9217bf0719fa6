------------------------------ MODULE AlgoModel -----------------------------
(* All histories of reports of up to Depth steps on two or three components *)
(* (the third is unknown at first): shares are distributions, have their    *)
(* minimum, and unknown components without data have none.                  *)
EXTENDS Algo, TLC
CONSTANTS Depth, Variant, Kind, MaxN
VARIABLES a, pi, m
vars == <<a, pi, m>>
C == [kind |-> Kind, variant |-> Variant, g1 |-> 100, g2 |-> 100, s2 |-> 1, dmin |-> 100000, interval |-> 2, ignore |-> 0, start |-> 1, sub |-> 1,
      same |-> FALSE, mu |-> <<1, 3>>]
Counts == UNION {[1..k -> 0..MaxN] : k \in 1..3}
Loss(k, x) == x * (3 * k)
Init == a = NewAlgo(C) /\ pi = <<>> /\ m = 0
Step == /\ a.step < Depth
        /\ \E n \in Counts, new \in BOOLEAN, y \in {1, 5} :
             LET e == [l |-> [k \in DOMAIN n |-> y * Loss(k, n[k])], n |-> n, m |-> IF new THEN m + 1 ELSE m]
                 r == TLCEval(Report(C, a, e)) IN
             a' = r.a /\ pi' = r.pi /\ m' = e.m
Spec == Init /\ [][Step]_vars
Abs(x) == IF x < 0 THEN 0 - x ELSE x
Distribution == pi # <<>> => (\A k \in DOMAIN pi : pi[k] >= 0) /\ Abs(Sum(pi) - S) <= 10
AtLeast == Kind = "ado" /\ pi # <<>> => \A k \in DOMAIN pi : a.C[k] > 0 => pi[k] >= MulDiv(C.dmin, S, S + Len(pi) * C.dmin) - 5
Nothing == pi # <<>> => \A k \in DOMAIN pi : a.C[k] = 0 /\ (Kind = "avg" \/ k > Len(C.mu)) => pi[k] = 0
(* Twice the average loss, twice the share *)
Proportional == Kind = "avg" /\ pi # <<>> =>
  \A j, k \in DOMAIN pi : a.C[j] > 0 /\ a.C[k] > 0 /\ a.L[k] * a.C[j] = 2 * a.L[j] * a.C[k] => Abs(pi[k] - 2 * pi[j]) <= 200
ASSUME \A x \in {0, 1, 7, 99, 1000, 46340}, y \in {0, 1, 13, 46340}, z \in {1, 3, 1000, 600000000} : MulDiv(x, y, z) = (x * y) \div z
ASSUME MulDiv(10000000, 10000000, 10000000) = 10000000
ASSUME Power(2500000, 1) = 5000000 /\ Power(5000000, 4) = 2500000
=============================================================================
