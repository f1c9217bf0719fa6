---------------------------- MODULE ServerModel -----------------------------
(* The server's own view: requests are acknowledged at once and executed in *)
(* the background one after another; clients poll for the outcome. Two      *)
(* clients may use the same job id.                                         *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Clients, Jobs, Invalid, RejectDuplicates, MaxTasks

VARIABLES reg,        \* job -> status table
          stub,       \* jobs that exist
          queue,      \* background tasks: [c, j, what]
          told,       \* client -> [j, own (outcome of its own task, "none" so far), seen]
          tasks
vars == <<reg, stub, queue, told, tasks>>
Nobody == [j |-> "", own |-> "none", seen |-> "none", what |-> ""]
Init == reg = [j \in Jobs |-> "none"] /\ stub = {} /\ queue = <<>> /\ told = [c \in Clients |-> Nobody] /\ tasks = 0

Query(c, j) ==
  /\ told[c].j = "" /\ tasks < MaxTasks /\ tasks' = tasks + 1
  /\ IF RejectDuplicates /\ reg[j] \in {"pending", "ok"}
     THEN told' = [told EXCEPT ![c] = [j |-> j, own |-> "failed", seen |-> "failed", what |-> "query"]] /\ UNCHANGED <<reg, queue, stub>>
     ELSE /\ reg' = (IF RejectDuplicates THEN [reg EXCEPT ![j] = "pending"] ELSE reg)
          /\ queue' = Append(queue, [c |-> c, j |-> j, what |-> "query"])
          /\ told' = [told EXCEPT ![c] = [j |-> j, own |-> "none", seen |-> "none", what |-> "query"]] /\ UNCHANGED stub
Restore(c, j) ==
  /\ told[c].j = "" /\ j \in stub /\ tasks < MaxTasks /\ tasks' = tasks + 1
  /\ ~ \E k \in DOMAIN queue : queue[k].j = j
  /\ reg' = [reg EXCEPT ![j] = IF RejectDuplicates THEN "pending" ELSE "none"]
  /\ queue' = Append(queue, [c |-> c, j |-> j, what |-> "restore"])
  /\ told' = [told EXCEPT ![c] = [j |-> j, own |-> "none", seen |-> "none", what |-> "restore"]] /\ UNCHANGED stub
Work ==
  /\ queue # <<>>
  /\ LET x == Head(queue)
         ok == IF x.what = "restore" THEN TRUE ELSE x.j \notin Invalid /\ x.j \notin stub IN
     /\ reg' = [reg EXCEPT ![x.j] = IF ok THEN "ok" ELSE "failed"]
     /\ stub' = IF ok THEN stub \cup {x.j} ELSE stub
     /\ told' = [told EXCEPT ![x.c].own = IF ok THEN "ok" ELSE "failed"]
     /\ queue' = Tail(queue) /\ UNCHANGED tasks
Poll(c) ==
  /\ told[c].j # "" /\ told[c].seen = "none" /\ reg[told[c].j] \in {"ok", "failed"}
  /\ told' = [told EXCEPT ![c].seen = reg[told[c].j]] /\ UNCHANGED <<reg, stub, queue, tasks>>
Leave(c) == told[c].seen # "none" /\ told' = [told EXCEPT ![c] = Nobody] /\ UNCHANGED <<reg, stub, queue, tasks>>
Next == \E c \in Clients : Poll(c) \/ Leave(c) \/ (\E j \in Jobs : Query(c, j) \/ Restore(c, j))
Spec == Init /\ [][Next \/ Work]_vars

StatusIsTrue == \A j \in Jobs : reg[j] = "ok" => j \in stub
JobsStayUsable == \A j \in stub : (~ \E k \in DOMAIN queue : queue[k].j = j) => reg[j] = "ok"
(* What a client is told is what became of its own request                  *)
OwnOutcome == \A c \in Clients : told[c].seen # "none" => told[c].seen = told[c].own
=============================================================================
