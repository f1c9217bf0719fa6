---------------------------- MODULE SharedModel -----------------------------
(* Registrations of datasets run in threads that share one connection to    *)
(* the database, where the rows to insert are known under one name.         *)
EXTENDS Integers, FiniteSets
CONSTANTS Tasks, Serialised
VARIABLES pc, view, rows, lock
vars == <<pc, view, rows, lock>>
Init == pc = [x \in Tasks |-> "start"] /\ view = 0 /\ rows = [x \in Tasks |-> {}] /\ lock = 0
Step(x, a, b) == pc[x] = a /\ pc' = [pc EXCEPT ![x] = b]
Start(x) == Step(x, "start", "name") /\ (Serialised => lock = 0) /\ lock' = (IF Serialised THEN x ELSE 0) /\ UNCHANGED <<view, rows>>
Name(x) == Step(x, "name", "insert") /\ view' = x /\ UNCHANGED <<rows, lock>>
Insert(x) == Step(x, "insert", "drop") /\ (IF view = 0 THEN UNCHANGED rows ELSE rows' = [rows EXCEPT ![x] = @ \cup {view}]) /\ UNCHANGED <<view, lock>>
Drop(x) == Step(x, "drop", "end") /\ view' = 0 /\ lock' = 0 /\ UNCHANGED rows
Next == \E x \in Tasks : Start(x) \/ Name(x) \/ Insert(x) \/ Drop(x)
Spec == Init /\ [][Next]_vars
OwnRows == \A x \in Tasks : pc[x] = "end" => rows[x] = {x}
=============================================================================
