-------------------------------- MODULE Algo --------------------------------
(* Dynamic mixing algorithms: new shares from the losses of the training.   *)
(* Real numbers are numbers of units 1/S. Components are 1..K.              *)
(* Losses are in eighths. c: the configuration [kind, variant, g1, g2       *)
(* (thousandths), s2 (twice the exponent), dmin (units), interval, ignore,  *)
(* start, sub, same, mu (weights of the initial mixture)].                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC
S == 10000000

(* a * b \div c without large intermediate results; c < 7 * 10^8 *)
RECURSIVE MD(_, _, _)
MD(a, b, c) ==
  IF b = 0 THEN <<0, 0>>
  ELSE LET h == TLCEval(MD(a, b \div 2, c))  odd == b % 2
           r == 2 * h[2] + odd * (a % c) IN
       <<2 * h[1] + odd * (a \div c) + (r \div c), r % c>>
MulDiv(a, b, c) == MD(a, b, c)[1]
RECURSIVE Sum(_)
Sum(q) == IF q = <<>> THEN 0 ELSE Head(q) + Sum(Tail(q))
Norm(q) == LET p == TLCEval(q)  n == TLCEval(Sum(p)) IN TLCEval([k \in DOMAIN p |-> MulDiv(p[k], S, n)])
RECURSIVE Root(_, _, _)      \* largest r in lo..hi with r * r <= x * S
Root(x, lo, hi) == IF lo = hi THEN lo ELSE LET m == TLCEval((lo + hi + 1) \div 2) IN IF MulDiv(m, m, S) <= x THEN Root(x, m, hi) ELSE Root(x, lo, m - 1)
Power(x, s2) == CASE s2 = 0 -> S [] s2 = 1 -> Root(x, 0, S) [] s2 = 2 -> x [] s2 = 4 -> MulDiv(x, x, S)
RECURSIVE Pow(_, _)
Pow(x, n) == IF n = 0 THEN S ELSE MulDiv(x, Pow(x, n - 1), S)
Pad(q, n, z) == q \o [j \in 1..(IF n > Len(q) THEN n - Len(q) ELSE 0) |-> z]
Max2(a, b) == IF a < b THEN b ELSE a
Min2(a, b) == IF a < b THEN a ELSE b

(* -------- averages -------- *)
Averages(L, C) ==       \* shares proportional to the average loss
  LET a == TLCEval([k \in DOMAIN C |-> IF C[k] > 0 THEN MulDiv(L[k], 100000, C[k]) ELSE 0])
      seen == Cardinality({k \in DOMAIN C : C[k] > 0}) IN
  IF Sum(a) = 0 THEN [k \in DOMAIN C |-> IF C[k] > 0 THEN S \div seen ELSE 0] ELSE Norm(a)

(* -------- adaptive data optimization -------- *)
NewAlgo(c) ==
  [step |-> 0, last |-> -1, L |-> <<>>, C |-> <<>>, N |-> <<>>, hist |-> <<>>, h |-> <<>>, bar |-> <<>>, b |-> <<>>,
   updated |-> 0, next |-> -1, first |-> FALSE]

(* A report: losses l and counts n per component, the id m of the mixture   *)
Account(c, a, e) ==
  LET K == Max2(Max2(Len(e.l), Len(a.C)), IF c.kind = "ado" THEN Len(c.mu) ELSE 0)
      l == Pad(e.l, K, 0)  n == Pad(e.n, K, 0)
      C == TLCEval([k \in 1..K |-> Pad(a.C, K, 0)[k] + n[k]])
      inc == TLCEval(IF c.same THEN [k \in 1..K |-> IF C[k] > 0 THEN Sum(n) ELSE 0] ELSE n)
      avg == TLCEval([k \in 1..K |-> IF n[k] > 0 THEN l[k] \div n[k] ELSE 0])
  IN TLCEval([a EXCEPT !.step = @ + 1, !.last = Max2(@, e.m), !.C = C, !.L = [k \in 1..K |-> Pad(a.L, K, 0)[k] + l[k]],
               !.N = [k \in 1..K |-> Pad(a.N, K, 0)[k] + inc[k]],
               !.hist = IF c.kind = "ado" THEN Append(@, [inc |-> inc, avg |-> avg]) ELSE @,
               !.h = Pad(@, IF @ = <<>> THEN 0 ELSE K, 0), !.bar = Pad(@, IF @ = <<>> THEN 0 ELSE K, 0), !.b = Pad(@, IF @ = <<>> THEN 0 ELSE K, 0)])

(* The series the law of component k is fitted to: <<count so far, loss>>   *)
At(q, k) == IF k > Len(q) THEN 0 ELSE q[k]
RECURSIVE Series(_, _, _, _, _, _)
Series(c, hist, k, t, n, prev) ==      \* n: count before step t; prev: last loss
  IF t > Len(hist) THEN <<>>
  ELSE LET n1 == TLCEval(n + At(hist[t].inc, k))
           y0 == At(hist[t].avg, k)
           y == TLCEval(IF c.same /\ t > 1 /\ y0 = 0 THEN prev ELSE y0)
           rest == Series(c, hist, k, t + 1, n1, y) IN
       IF n1 > 0 /\ t - 1 > c.ignore /\ (c.same \/ y > 0) THEN <<<<n1, y>>>> \o rest ELSE rest
RECURSIVE Every(_, _)
Every(q, d) == IF q = <<>> THEN <<>> ELSE <<q[1]>> \o Every(SubSeq(q, 1 + d, Len(q)), d)
FitData(c, a, k) == Every(Series(c, a.hist, k, 1, 0, 0), c.sub)
Fitting(c, a) == a.step >= c.start /\ (a.step - c.start) % c.interval = 0
(* The law found for data (here: as the drivers' stand-in finds it): the    *)
(* exponent 1 and a factor; no data, no law                                 *)
Factor(q) == IF q = <<>> THEN 0 ELSE 1 + (q[Len(q)][2] % 23)

Rho(c, a, mu, h) ==
  LET K == Len(a.C)
      n == a.N
      low == TLCEval(LET P == {n[k] : k \in {k \in 1..K : n[k] > 0}} IN IF P = {} THEN 1 ELSE CHOOSE x \in P : \A y \in P : x <= y)
      num == TLCEval([k \in 1..K |-> IF n[k] > 0 THEN MulDiv(MulDiv(mu[k], Power(h[k], c.s2), S) * a.b[k], low * low, n[k] * n[k]) \div 4 ELSE 0])
  IN IF Sum(num) = 0 THEN [k \in 1..K |-> mu[k] \div K] ELSE Norm(num)
Blend(x, y, w) == TLCEval([k \in DOMAIN x |-> MulDiv(x[k], w, 1000) + MulDiv(y[k], 1000 - w, 1000)])

(* Does a report that came with a new mixture change the shares? [a, pi]    *)
Silent(c, a) == a.step < c.start
Pauses(c, a, new) ==      \* the third variant waits until its shares are in use
  LET next == IF new THEN a.step + 15 ELSE a.next IN
  c.variant = "adjusted_v3" /\ a.first /\ ~(next = a.step \/ Fitting(c, a))
Update(c, a, new) ==
  LET K == Len(a.C)
      mu == Pad(Norm(c.mu), K, 0)
      h0 == IF a.h = <<>> THEN mu ELSE a.h
      bar0 == IF a.bar = <<>> THEN mu ELSE a.bar
      rho == TLCEval(Rho(c, a, mu, h0))
      pi0 == Norm(Blend(rho, bar0, c.g2))
      pi == Norm([k \in 1..K |-> IF a.C[k] > 0 THEN Max2(pi0[k], c.dmin) ELSE pi0[k]])
      moves == c.variant \in {"vanilla", "adjusted_v3"} \/ new
      gap == a.step - a.updated
      g == TLCEval(IF c.variant = "adjusted_v2" /\ gap > 1 THEN S - Pow(S - c.g1 * (S \div 1000), gap) ELSE c.g1 * (S \div 1000))
      h1 == TLCEval(IF moves THEN [k \in 1..K |-> MulDiv(pi[k], g, S) + MulDiv(h0[k], S - g, S)] ELSE h0)
      bar1 == Norm([k \in 1..K |-> MulDiv(rho[k], 1, a.step + 1) + MulDiv(bar0[k], a.step, a.step + 1)])
  IN [pi |-> pi, a |-> [a EXCEPT !.h = h1, !.bar = bar1, !.updated = IF moves THEN a.step ELSE @, !.first = TRUE]]
Refit(c, a) == IF Fitting(c, a) THEN TLCEval([a EXCEPT !.b = [k \in 1..Len(a.C) |-> Factor(FitData(c, a, k))]]) ELSE a
Waited(c, a, new) == IF c.variant = "adjusted_v3" /\ a.first /\ new THEN [a EXCEPT !.next = a.step + 15] ELSE a
Started(c, a) == IF a.h = <<>> THEN [a EXCEPT !.h = Pad(Norm(c.mu), Len(a.C), 0)] ELSE a

(* One report: [a, pi, fits]; pi = <<>>: the shares stay *)
Report(c, a0, e) ==
  LET new == e.m > a0.last
      a == TLCEval(Account(c, a0, e)) IN
  IF c.kind = "avg" THEN [a |-> a, pi |-> IF \A k \in DOMAIN a.C : a.C[k] = 0 THEN <<>> ELSE Averages(a.L, a.C), fits |-> {}]
  ELSE IF Silent(c, a) THEN [a |-> a, pi |-> <<>>, fits |-> {}]
  ELSE LET f == TLCEval(Started(c, Refit(c, a)))
           fits == IF Fitting(c, a) THEN {FitData(c, a, k) : k \in DOMAIN a.C} \ {<<>>} ELSE {} IN
       IF Pauses(c, f, new) THEN [a |-> Waited(c, f, new), pi |-> <<>>, fits |-> fits]
       ELSE LET u == Update(c, Waited(c, f, new), new) IN [a |-> u.a, pi |-> u.pi, fits |-> fits]
=============================================================================
