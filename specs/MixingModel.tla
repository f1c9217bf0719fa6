---------------------------- MODULE MixingModel -----------------------------
(* Design model of Mixing: all schedules of up to Entries entries and all   *)
(* feedback histories of up to Depth reports, also late and repeated ones.  *)
EXTENDS Mixing, TLC
CONSTANTS Entries, MaxStep, Depth
K(x) == <<<<"topic", <<x>>>>>>
Keys == {K("a"), K("b")}
Static(n) == [kind |-> "fixed", mix |-> [kind |-> "static", size |-> 4, strict |-> TRUE, slack |-> 0, den |-> 4,
               keys |-> <<[props |-> K("a"), num |-> n, rows |-> 0], [props |-> K("b"), num |-> 4 - n, rows |-> 0]>>]]
Dyn == [Static(2) EXCEPT !.kind = "dynamic"]
Mixes == {Static(1), Static(3), Dyn}
Losses == {<<>>} \cup {<<[props |-> k, l |-> l, n |-> 2]>> : k \in Keys, l \in {0, 2, 3}}
             \cup {<<[props |-> K("a"), l |-> 4, n |-> 1], [props |-> K("b"), l |-> 2, n |-> 3]>>}
VARIABLES m, n, before
vars == <<m, n, before>>
Schedules == UNION {[1..k -> [start : 0..MaxStep, mix : Mixes]] : k \in 1..Entries}
Init == /\ \/ \E s \in Schedules : m = NewMixing([kind |-> "schedule", entries |-> s])
           \/ \E x \in Mixes : m = NewMixing(x)
        /\ n = 0 /\ before = m
Next == n < Depth /\ n' = n + 1 /\ before' = m
        /\ \E st \in 0..MaxStep + 1 : \E l \in Losses : m' = Feed(m, st, l)
Spec == Init /\ [][Next]_vars
Sched == m.mixture.kind = "schedule"
StartOf(x) == x.mixture.entries[EntryAt(x)].start
(* The step never goes back, and so do the entries                          *)
Forward == m.step >= before.step /\ (Sched => (StartOf(m) >= StartOf(before) \/ m.step = 0))
(* The entry in force is the latest begun one; the first before any began   *)
Latest == Sched => \A x \in DOMAIN m.mixture.entries :
            LET s == m.mixture.entries[x].start IN
            IF s <= m.step THEN StartOf(m) >= s ELSE (StartOf(m) > m.step => StartOf(m) <= s)
(* Only the entry in force accounts losses                                  *)
OthersKept == \A x \in DOMAIN m.acc : x # EntryAt(m) => m.acc[x] = before.acc[x]
(* What is in force is a distribution over the components seen              *)
Distribution ==
  LET s == Shares(m) IN /\ s.den > 0 /\ \A k \in DOMAIN s.keys : s.keys[k].num >= 0
                        /\ SumSeq([k \in DOMAIN s.keys |-> s.keys[k].num]) = s.den
(* Without losses for a static entry nothing changes within an entry        *)
StaticEntries == Entry(m).kind = "fixed" => Shares(m) = Entry(m).mix
=============================================================================
