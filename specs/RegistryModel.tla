--------------------------- MODULE RegistryModel ----------------------------
(* A registration as the steps it consists of (row of the dataset, files,   *)
(* samples in batches), each of which may fail or be the last one before a  *)
(* crash, together with removal and reopening; clean-up after a failure.    *)
EXTENDS Registry, TLC
CONSTANTS DSNames, NFiles, MaxOps
VARIABLES db,      \* [ds: set of names, files: name -> number, samples: name -> set of files inserted]
          reg,     \* the abstract registry
          run,     \* the registration under way: <<>> or <<name, step>>
          ops
vars == <<db, reg, run, ops>>
S(n) == [k \in 1..NFiles |-> [ds |-> n, file |-> k, row |-> 0, p |-> <<>>]]
Init == db = [ds |-> {}, files |-> [n \in DSNames |-> 0], samples |-> [n \in DSNames |-> {}]] /\ reg = <<>> /\ run = <<>> /\ ops = 0
Wipe(n) == [ds |-> db.ds \ {n}, files |-> [db.files EXCEPT ![n] = 0], samples |-> [db.samples EXCEPT ![n] = {}]]

Begin(n) == /\ run = <<>> /\ ops < MaxOps /\ ops' = ops + 1
            /\ IF n \in db.ds THEN /\ RegisterFailed(reg, [name |-> n, res |-> "false", fits |-> "yes"]) = {}
                                   /\ UNCHANGED <<db, reg, run>>
               ELSE /\ db' = [db EXCEPT !.ds = @ \cup {n}] /\ run' = <<n, 0>> /\ UNCHANGED reg
Files == /\ run # <<>> /\ run[2] = 0
         /\ db' = [db EXCEPT !.files[run[1]] = NFiles] /\ run' = <<run[1], 1>> /\ UNCHANGED <<reg, ops>>
Samples == /\ run # <<>> /\ run[2] \in 1..NFiles
           /\ db' = [db EXCEPT !.samples[run[1]] = @ \cup {run[2]}] /\ run' = <<run[1], run[2] + 1>> /\ UNCHANGED <<reg, ops>>
Done == /\ run # <<>> /\ run[2] = NFiles + 1
        /\ reg' = RegisterApply(reg, [name |-> run[1], res |-> "ok", samples |-> S(run[1])])
        /\ run' = <<>> /\ UNCHANGED <<db, ops>>
Fail == /\ run # <<>> /\ run[2] <= NFiles
        /\ db' = Wipe(run[1]) /\ run' = <<>> /\ UNCHANGED <<reg, ops>>
Crash == /\ run # <<>>
         /\ reg' = CrashApply(reg, [name |-> run[1], samples |-> S(run[1])])
         /\ run' = <<>> /\ UNCHANGED <<db, ops>>
Remove(n) == /\ run = <<>> /\ ops < MaxOps /\ ops' = ops + 1
             /\ LET e == [name |-> n, res |-> IF n \in db.ds THEN "ok" ELSE "false"] IN
                RemoveFailed(reg, e) = {} /\ reg' = RemoveApply(reg, e)
             /\ db' = Wipe(n) /\ UNCHANGED run
Next == (\E n \in DSNames : Begin(n) \/ Remove(n)) \/ Files \/ Samples \/ Done \/ Fail \/ Crash
Spec == Init /\ [][Next]_vars /\ WF_vars(Files) /\ WF_vars(Samples) /\ WF_vars(Done)

Idx == LET f == {<<n, k>> : n \in DSNames, k \in 1..NFiles}
           here == {x \in f : x[2] \in db.samples[x[1]]}
           RECURSIVE Seq_(_)
           Seq_(h) == IF h = {} THEN <<>> ELSE LET x == CHOOSE x \in h : TRUE IN
                      <<[p |-> <<>>, ds |-> x[1], file |-> x[2], iv |-> << <<0, 1>> >>]>> \o Seq_(h \ {x}) IN Seq_(here)
RECURSIVE ToSeq(_)
ToSeq(h) == IF h = {} THEN <<>> ELSE LET x == CHOOSE x \in h : TRUE IN <<x>> \o ToSeq(h \ {x})
(* Between operations, what a query sees is what the registry says. *)
Refines == run = <<>> => DumpFailed(reg, [names |-> ToSeq(db.ds), idx |-> Idx]) = {}
(* Every name can be registered, if need be after removing it. *)
Usable == run = <<>> => \A n \in DSNames : n \notin db.ds \/ n \in Names(reg)
Finishes == run # <<>> ~> run = <<>>
=============================================================================
