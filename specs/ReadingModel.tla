----------------------------- MODULE ReadingModel ---------------------------
(* The readers as built: per key one iterator, or processes with a queue    *)
(* each that the consumer takes turns on; windows by counts per key. All    *)
(* chunks up to MaxN samples per key, windows, interleavings of processes   *)
(* and failures of processes.                                               *)
EXTENDS Reading, TLC
CONSTANTS NKeys, MaxN, MaxProcs, MaxW, Failures, ReportFailures

Keys == 1..NKeys
Procs == 1..MaxProcs
VARIABLES n, mode, wsize, quota,     \* samples per key; simple | best | exact; counts per window
          pend,                \* [key][process] samples not yet sent
          queue,               \* [key][process] sequences of "s" (sample), "eos", "err"
          dead,                \* processes that ended
          turn, gone,          \* [key]: whose turn; removed processes
          pos, used, items, nothing, del, stop, pc, out, H, left
vars == <<n, mode, wsize, quota, pend, queue, dead, turn, gone, pos, used, items, nothing, del, stop, pc, out, H, left>>

Exact == mode = "exact"
Round_(m, md, w) == IF md = "simple" THEN InSequence(m) ELSE InWindows(w, m, md = "exact")
R == Round_(n, mode, wsize)
Counts(w, m) == LET floor == [k \in Keys |-> (w * m[k]) \div Total(m)]
                IN [floor EXCEPT ![1] = @ + w - Total(floor)]
Split(x, p) == [i \in Procs |-> IF i > p THEN 0 ELSE x \div p + IF i <= x % p THEN 1 ELSE 0]
Init ==
  /\ n \in [Keys -> 1..MaxN]
  /\ mode \in {"simple", "best", "exact"}
  /\ IF mode = "simple" THEN quota = [k \in Keys |-> 1] /\ wsize = NKeys
     ELSE \E w \in 1..Least(MaxW, Total(n)) : quota = Counts(w, n) /\ wsize = w
  /\ \E p \in Procs : /\ pend = [k \in Keys |-> Split(n[k], p)]
                      /\ gone = [k \in Keys |-> {i \in Procs : i > p}]
  /\ queue = [k \in Keys |-> [i \in Procs |-> <<>>]]
  /\ dead = [k \in Keys |-> {}]
  /\ turn = [k \in Keys |-> 1]
  /\ pos = 1 /\ used = [k \in Keys |-> 0] /\ items = 0 /\ nothing = TRUE /\ del = {} /\ stop = FALSE
  /\ pc = "key" /\ out = <<>> /\ left = n
  /\ H = Start(Round_(n, mode, Total(quota)), n)

(* reader processes                                                         *)
Send(k, i) ==
  /\ i \notin gone[k] /\ i \notin dead[k]
  /\ IF pend[k][i] > 0 THEN /\ pend' = [pend EXCEPT ![k][i] = @ - 1]
                            /\ queue' = [queue EXCEPT ![k][i] = Append(@, "s")]
                            /\ UNCHANGED dead
     ELSE /\ queue' = [queue EXCEPT ![k][i] = Append(@, "eos")]
          /\ dead' = [dead EXCEPT ![k] = @ \cup {i}]
          /\ UNCHANGED pend
  /\ UNCHANGED <<n, mode, wsize, quota, turn, gone, pos, used, items, nothing, del, stop, pc, out, H, left>>
Fail(k, i) ==
  /\ Failures /\ i \notin gone[k] /\ i \notin dead[k]
  /\ dead' = [dead EXCEPT ![k] = @ \cup {i}]
  /\ queue' = IF ReportFailures THEN [queue EXCEPT ![k][i] = Append(@, "err")] ELSE queue
  /\ UNCHANGED <<n, mode, wsize, quota, pend, turn, gone, pos, used, items, nothing, del, stop, pc, out, H, left>>

(* The consumer: the next sample of a key, or its end. A process whose      *)
(* queue is empty although it ended is given up (timeout)                   *)
Order(k) == LET after == {i \in Procs \ gone[k] : i >= turn[k]} IN
            IF after = {} THEN IF Procs \ gone[k] = {} THEN 0 ELSE CHOOSE i \in Procs \ gone[k] : \A j \in Procs \ gone[k] : i <= j
            ELSE CHOOSE i \in after : \A j \in after : i <= j
AdvanceKey == IF pos < NKeys THEN pos' = pos + 1 /\ UNCHANGED pc ELSE pos' = 1 /\ pc' = "round"

Ask ==
  /\ pc = "key"
  /\ LET k == pos IN
     IF k \in del \/ used[k] >= quota[k]
     THEN AdvanceKey /\ UNCHANGED <<queue, turn, gone, used, items, nothing, del, stop, out, H, left>>
     ELSE LET i == Order(k) IN
          IF i = 0
          THEN /\ del' = del \cup {k} /\ stop' = TRUE /\ AdvanceKey
               /\ UNCHANGED <<queue, turn, gone, used, items, nothing, out, H, left>>
          ELSE IF queue[k][i] = <<>>
          THEN IF i \in dead[k]
               THEN (* lost: nothing of what it should have sent will come *)
                    /\ pc' = "error"
                    /\ UNCHANGED <<queue, turn, gone, pos, used, items, nothing, del, stop, out, H, left>>
               ELSE FALSE
          ELSE LET x == Head(queue[k][i]) IN
               /\ queue' = [queue EXCEPT ![k][i] = Tail(@)]
               /\ CASE x = "eos" -> /\ gone' = [gone EXCEPT ![k] = @ \cup {i}] /\ turn' = [turn EXCEPT ![k] = i + 1]
                                    /\ UNCHANGED <<pos, used, items, nothing, del, stop, pc, out, H, left>>
                    [] x = "err" -> /\ pc' = "error"
                                    /\ UNCHANGED <<turn, gone, pos, used, items, nothing, del, stop, out, H, left>>
                    [] OTHER -> /\ turn' = [turn EXCEPT ![k] = i + 1]
                                /\ used' = [used EXCEPT ![k] = @ + 1] /\ items' = items + 1 /\ nothing' = FALSE
                                /\ out' = Append(out, k) /\ left' = [left EXCEPT ![k] = @ - 1]
                                /\ H' = Take(R, H, k, [left EXCEPT ![k] = @ - 1])
                                /\ IF mode # "simple" /\ items + 1 >= Total(quota) THEN pos' = 1 /\ pc' = "window" ELSE AdvanceKey
                                /\ UNCHANGED <<gone, del, stop>>
  /\ UNCHANGED <<n, mode, wsize, quota, pend, dead>>

Round ==      \* all keys had their turn
  /\ pc = "round"
  /\ IF mode = "simple"
     THEN /\ IF del = Keys THEN pc' = "end" ELSE pc' = "key"
          /\ used' = [k \in Keys |-> 0] /\ UNCHANGED <<quota, items>>
     ELSE /\ IF nothing \/ del = Keys THEN pc' = "window" ELSE pc' = "key"
          /\ UNCHANGED <<used, items, quota>>
  /\ nothing' = TRUE
  /\ UNCHANGED <<n, mode, wsize, quota, pend, queue, dead, turn, gone, pos, del, stop, out, H, left>>

Window ==
  /\ pc = "window"
  /\ IF del = Keys \/ (Exact /\ stop) THEN pc' = "end" ELSE pc' = "key"
  /\ quota' = IF items = 0 /\ ~Exact THEN [k \in Keys |-> Total(quota)] ELSE quota
  /\ used' = [k \in Keys |-> 0] /\ items' = 0 /\ nothing' = TRUE
  /\ UNCHANGED <<n, mode, wsize, pend, queue, dead, turn, gone, pos, del, stop, out, H, left>>

Next == Ask \/ Round \/ Window \/ \E k \in Keys, i \in Procs : Send(k, i) \/ Fail(k, i)
Spec == Init /\ [][Next]_vars /\ WF_vars(Ask \/ Round \/ Window) /\ \A k \in Keys, i \in Procs : WF_vars(Send(k, i))

(* every sample read is one the contract allows next                        *)
Allowed == H # {}
EndIsAllowed == pc = "end" => CanEnd(H)
NothingLost == pc = "end" /\ ~Exact => Total(left) = 0
NoAlarm == ~Failures => pc # "error"
Ends == <>(pc \in {"end", "error"})
=============================================================================
