---------------------------- MODULE ParsersModel ----------------------------
(* How a server keeps the classes it is sent: the source is written to a    *)
(* file of its own, imported as a module, and the class noted under its     *)
(* name. The processes that parse the files of a dataset find the class by  *)
(* module. Classes of different clients may be called the same.             *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Clients, Names, Sources, OwnModules, CheckFirst
VARIABLES pc, want, file, parsers, outcome, data, fresh
vars == <<pc, want, file, parsers, outcome, data, fresh>>

Init == /\ pc = [c \in Clients |-> "idle"] /\ want = [c \in Clients |-> <<>>] /\ file = <<>> /\ parsers = <<>>
        /\ outcome = {} /\ data = {} /\ fresh = 1

Put(f, x, v) == [k \in DOMAIN f \cup {x} |-> IF k = x THEN v ELSE f[k]]

Send(c) == \E n \in Names, x \in Sources :
  /\ pc[c] = "idle" /\ pc' = [pc EXCEPT ![c] = "write"] /\ want' = [want EXCEPT ![c] = [name |-> n, src |-> x, mod |-> IF OwnModules THEN fresh ELSE 0]]
  /\ fresh' = fresh + 1 /\ UNCHANGED <<file, parsers, outcome, data>>
Write(c) == pc[c] = "write" /\ pc' = [pc EXCEPT ![c] = "note"] /\ file' = Put(file, want[c].mod, want[c].src)
            /\ UNCHANGED <<want, parsers, outcome, data, fresh>>
Note(c) ==
  LET w == want[c] free == w.name \notin DOMAIN parsers IN
  /\ pc[c] = "note" /\ pc' = [pc EXCEPT ![c] = "done"]
  /\ parsers' = (IF free \/ ~CheckFirst THEN Put(parsers, w.name, [mod |-> w.mod, src |-> w.src]) ELSE parsers)
  /\ outcome' = outcome \cup {[name |-> w.name, src |-> w.src, ok |-> free \/ ~CheckFirst, by |-> c]}
  /\ UNCHANGED <<want, file, data, fresh>>
(* A dataset parsed by processes with the module's file *)
Parse(n) == n \in DOMAIN parsers /\ data' = data \cup {[name |-> n, used |-> file[parsers[n].mod]]}
            /\ UNCHANGED <<pc, want, file, parsers, outcome, fresh>>
Next == (\E c \in Clients : Send(c) \/ Write(c) \/ Note(c)) \/ \E n \in Names : Parse(n)
Spec == Init /\ [][Next]_vars

OnePerName == \A a, b \in outcome : a.ok /\ b.ok /\ a.name = b.name => a = b
SomeoneWins == \A a \in outcome : \E b \in outcome : b.name = a.name /\ b.ok
OwnClass == \A d \in data : \E a \in outcome : a.ok /\ a.name = d.name /\ a.src = d.used
=============================================================================
