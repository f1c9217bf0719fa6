-------------------------------- MODULE Mixing ------------------------------
(* The mixture in force as a function of the initial one and the feedback.  *)
(* mixture: [kind |-> "fixed", mix] or [kind |-> "dynamic", mix] or         *)
(* [kind |-> "schedule", entries : Seq([start, mix : fixed or dynamic])]    *)
(* where mix carries the requested shares num/den per component.            *)
(* m.acc: per entry, accumulated [props, l, n] losses and counts            *)
EXTENDS ChunkGen

NewMixing(mixture) ==
  [mixture |-> mixture, step |-> 0,
   acc |-> IF mixture.kind = "schedule" THEN [x \in 1..Len(mixture.entries) |-> <<>>] ELSE <<<<>>>>]

(* The entry with the latest start not after the step, else the earliest.   *)
(* Of entries with the same start, the one listed last.                     *)
Starts(m) == [x \in DOMAIN m.mixture.entries |-> m.mixture.entries[x].start]
EntryAt(m) ==
  IF m.mixture.kind # "schedule" THEN 1 ELSE
  LET S == Starts(m)
      past == {x \in DOMAIN S : S[x] <= m.step}
      pool == IF past = {} THEN DOMAIN S ELSE past
      best == IF past = {} THEN CHOOSE x \in pool : \A y \in pool : S[x] < S[y] \/ (S[x] = S[y] /\ x <= y)
                           ELSE CHOOSE x \in pool : \A y \in pool : S[x] > S[y] \/ (S[x] = S[y] /\ x >= y)
  IN best
Entry(m) == IF m.mixture.kind = "schedule" THEN m.mixture.entries[EntryAt(m)].mix ELSE m.mixture

RECURSIVE AddTo(_, _)
AddTo(acc, x) ==
  IF acc = <<>> THEN <<x>>
  ELSE IF SameKey(Head(acc).props, x.props) THEN <<[props |-> x.props, l |-> Head(acc).l + x.l, n |-> Head(acc).n + x.n]>> \o Tail(acc)
  ELSE <<Head(acc)>> \o AddTo(Tail(acc), x)
RECURSIVE AddAll(_, _)
AddAll(acc, xs) == IF xs = <<>> THEN acc ELSE AddAll(AddTo(acc, Head(xs)), Tail(xs))

Feed(m, step, loss) ==
  LET m1 == [m EXCEPT !.step = IF step > @ THEN step ELSE @] IN
  IF Entry(m1).kind = "dynamic" THEN [m1 EXCEPT !.acc[EntryAt(m1)] = AddAll(@, loss)] ELSE m1

RECURSIVE Prod(_)
Prod(q) == IF q = <<>> THEN 1 ELSE Head(q) * Prod(Tail(q))
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
RECURSIVE LcmAll(_)
LcmAll(q) == IF q = <<>> THEN 1 ELSE LET r == LcmAll(Tail(q)) IN (Head(q) \div Gcd(Head(q), r)) * r

(* Shares proportional to the average loss, over what has been counted;     *)
(* components without a share leave the mixture                             *)
Averaged(m) ==
  LET counted == SelectSeq(m.acc[EntryAt(m)], LAMBDA x : x.n > 0)
      lossy == SelectSeq(counted, LAMBDA x : x.l > 0)
      seen == IF lossy = <<>> THEN counted ELSE lossy
      L == LcmAll([k \in DOMAIN seen |-> seen[k].n])
      avg == [k \in DOMAIN seen |-> IF lossy = <<>> THEN 1 ELSE seen[k].l * (L \div seen[k].n)]
      mix == Entry(m).mix
  IN IF seen = <<>> THEN mix
     ELSE [mix EXCEPT !.keys = [k \in DOMAIN seen |-> [props |-> seen[k].props, num |-> avg[k], rows |-> 0]],
                      !.den = SumSeq(avg), !.slack = 0, !.kind = "static"]

Shares(m) == IF Entry(m).kind = "dynamic" THEN Averaged(m) ELSE Entry(m).mix

(* rows: Seq([props, rows]) the code prescribes; shares without rows may be *)
(* left out                                                                 *)
RowsFor(rows, key) == SumSeq([k \in DOMAIN rows |-> IF SameKey(rows[k].props, key) THEN rows[k].rows ELSE 0])
InForce(m, rows) ==
  LET s == Shares(m) IN [s EXCEPT !.keys = [k \in DOMAIN s.keys |-> [s.keys[k] EXCEPT !.rows = RowsFor(rows, s.keys[k].props)]]]
MixingFailed(m, rows) ==
  LET s == InForce(m, rows) IN
  IF s.kind = "arbitrary" THEN (IF rows = <<>> THEN {} ELSE {"mixture-in-force-is-not-the-prescribed-one"})
  ELSE (IF \A k \in DOMAIN rows : rows[k].rows > 0 => \E j \in DOMAIN s.keys : SameKey(s.keys[j].props, rows[k].props)
        THEN {} ELSE {"mixture-has-foreign-components"})
       \cup (IF PrescriptionFailed(s) = {} THEN {} ELSE {"mixture-in-force-is-not-the-prescribed-one"})
=============================================================================
