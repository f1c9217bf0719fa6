------------------------------- MODULE Server -------------------------------
(* A server as its clients see it. Registry: the names of the datasets.     *)
(* A job is the history of the requests on it; what they return is given by *)
(* the history the same requests have on a job of a local client that       *)
(* serves nobody else (solo). So the requests of other jobs, other          *)
(* connections and connections that break change nothing.                   *)
EXTENDS Integers, Sequences, FiniteSets

NewServer(cfg) ==
  [data |-> {}, solo |-> cfg.solo, valid |-> cfg.valid,
   jobs |-> [j \in DOMAIN cfg.solo |-> [st |-> "none", pos |-> 0]]]

Range(q) == {q[k] : k \in DOMAIN q}

(* op: "add" (possible: its files are readable, its parser exists), "remove", "exists", "list" *)
DatasetFailed(s, e) ==
  CASE e.op = "add"    -> IF e.ok = (e.possible /\ e.name \notin s.data) THEN {} ELSE {"registration-outcome"}
    [] e.op = "remove" -> IF e.ok = (e.name \in s.data) THEN {} ELSE {"removal-outcome"}
    [] e.op = "exists" -> IF e.ok = (e.name \in s.data) THEN {} ELSE {"wrong-datasets-reported"}
    [] e.op = "list"   -> IF Range(e.names) = s.data /\ Len(e.names) = Cardinality(s.data) THEN {} ELSE {"wrong-datasets-reported"}
DatasetApply(s, e) ==
  CASE e.op = "add"    -> IF e.possible THEN [s EXCEPT !.data = @ \cup {e.name}] ELSE s
    [] e.op = "remove" -> [s EXCEPT !.data = @ \ {e.name}]
    [] OTHER -> s

(* A job id is free if it was never used or its query failed.               *)
QueryFailed(s, e) == IF e.ok = (s.jobs[e.job].st \in {"none", "failed"}) THEN {} ELSE {"duplicate-job-accepted-or-new-one-refused"}
QueryApply(s, e) == IF e.ok THEN [s EXCEPT !.jobs[e.job].st = "pending"] ELSE s

Outcome(s, j) == IF s.valid[j] THEN "ok" ELSE "failed"
StatusFailed(s, e) ==
  LET st == s.jobs[e.job].st
      may == CASE st = "none" -> {0} [] st = "ok" -> {1} [] st = "failed" -> {2}
               [] st = "pending" -> {0, IF s.valid[e.job] THEN 1 ELSE 2} IN
  IF e.st \in may THEN {} ELSE {"wrong-job-status"}
StatusApply(s, e) == IF e.st = 0 THEN s ELSE [s EXCEPT !.jobs[e.job].st = Outcome(s, e.job)]
WaitFailed(s, e) == IF e.ok = (s.jobs[e.job].st # "none" /\ s.valid[e.job]) THEN {} ELSE {"wrong-job-status"}
WaitApply(s, e) == IF s.jobs[e.job].st = "none" THEN s ELSE [s EXCEPT !.jobs[e.job].st = Outcome(s, e.job)]

(* The next request on a job and what it returned                           *)
JobFailed(s, e) ==
  LET k == s.jobs[e.job].pos + 1 IN
  IF k > Len(s.solo[e.job]) THEN {"unknown-event"}
  ELSE IF s.solo[e.job][k] = e.reply THEN {} ELSE {"reply-differs-from-a-job-on-its-own"}
JobApply(s, e) == [s EXCEPT !.jobs[e.job].pos = @ + 1, !.jobs[e.job].st = IF e.op = "restore" THEN "ok" ELSE @]

(* The datasets stay, the jobs are gone (and come back by restoring them)   *)
Restarted(s) == [s EXCEPT !.jobs = [j \in DOMAIN @ |-> [@[j] EXCEPT !.st = "none"]]]

(* A request on an unknown job, while another client asks for something     *)
UnknownFailed(s, e) == (IF e.reported THEN {} ELSE {"unknown-job-not-reported"})
                       \cup (IF e.served THEN {} ELSE {"other-clients-wait-for-a-failing-request"})
=============================================================================
