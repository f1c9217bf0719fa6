----------------------------- MODULE CacheModel -----------------------------
(* The cache protocol at the granularity at which it can be interrupted or  *)
(* interleaved: a querying process reads the version, computes, writes the  *)
(* results, marks the entry complete; another one changes the data between  *)
(* two increments of the version. Crashes happen anywhere; what is on disk  *)
(* stays. The constants are the ordering decisions (TRUE as implemented).   *)
EXTENDS Integers, FiniteSets, Sequences, TLC
CONSTANTS Queries, MaxVer, MarkLast, VersionFirst, BumpBefore

VARIABLES data, ver,            \* content of the registry (a number), version counter on disk
          disk,                 \* entries: sequence of [q, marked, whole, ver, data]
          qp,                   \* querying process
          cp,                   \* changing process
          lost                  \* versions at which a changing process ended between its change and the increment
vars == <<data, ver, disk, qp, cp, lost>>
Idle == [at |-> "idle"]
Init == data = 0 /\ ver = 0 /\ disk = <<>> /\ qp = Idle /\ cp = Idle /\ lost = {}

Usable(d, q) == d.q = q /\ d.marked /\ d.ver = ver
Lookup(q) == /\ qp = Idle
             /\ IF \E k \in DOMAIN disk : Usable(disk[k], q)
                THEN qp' = [at |-> "hit", k |-> CHOOSE k \in DOMAIN disk : Usable(disk[k], q), q |-> q, changing |-> cp # Idle]
                ELSE qp' = [at |-> "compute", q |-> q, v |-> ver, r |-> cp # Idle]
             /\ UNCHANGED <<data, ver, disk, cp>>
Compute == /\ qp.at = "compute"
           /\ qp' = [at |-> "write", q |-> qp.q, v |-> qp.v, r |-> qp.r, d |-> data]
           /\ UNCHANGED <<data, ver, disk, cp>>
Entry(marked, whole) == [q |-> qp.q, marked |-> marked, whole |-> whole, ver |-> IF VersionFirst THEN qp.v ELSE ver, data |-> qp.d, racing |-> qp.r]
Begin == /\ qp.at = "write" /\ Len(disk) < 3
         /\ disk' = Append(disk, Entry(~MarkLast, FALSE))
         /\ qp' = [at |-> "fill", k |-> Len(disk) + 1, q |-> qp.q, v |-> qp.v, r |-> qp.r, d |-> qp.d]
         /\ UNCHANGED <<data, ver, cp>>
Fill == /\ qp.at = "fill" /\ disk' = [disk EXCEPT ![qp.k].whole = TRUE]
        /\ qp' = [qp EXCEPT !.at = "mark"] /\ UNCHANGED <<data, ver, cp>>
Mark == /\ qp.at = "mark"
        /\ disk' = IF MarkLast THEN [disk EXCEPT ![qp.k] = Entry(TRUE, TRUE)] ELSE disk
        /\ qp' = Idle /\ UNCHANGED <<data, ver, cp>>
Served == qp.at = "hit" /\ qp' = Idle /\ UNCHANGED <<data, ver, disk, cp>>

ChangeBegin == /\ cp = Idle /\ ver + 2 <= MaxVer
               /\ cp' = [at |-> "change"] /\ ver' = (IF BumpBefore THEN ver + 1 ELSE ver) /\ UNCHANGED <<data, disk, qp>>
Change == /\ cp.at = "change" /\ data' = data + 1 /\ cp' = [at |-> "bump"] /\ UNCHANGED <<ver, disk, qp>>
Bump == /\ cp.at = "bump" /\ ver' = ver + 1 /\ cp' = Idle /\ UNCHANGED <<data, disk, qp>>
Crash == (qp # Idle \/ cp # Idle) /\ lost' = (IF cp.at = "bump" THEN lost \cup {ver} ELSE lost) /\ qp' = Idle /\ cp' = Idle /\ UNCHANGED <<data, ver, disk>>

Next == \/ (\E q \in Queries : Lookup(q)) /\ UNCHANGED lost
        \/ (Compute \/ Begin \/ Fill \/ Mark \/ Served \/ ChangeBegin \/ Change \/ Bump) /\ UNCHANGED lost
        \/ Crash
Spec == Init /\ [][Next]_vars

(* A hit is whole, for this query, and the result on the present data       *)
(* (unless the data is being changed this very moment). Not claimed: a      *)
(* query executed while another process was changing the data, which then   *)
(* ended between its change and its second increment.                       *)
HitsAreRight == qp.at = "hit" => LET d == disk[qp.k] IN
                  /\ d.whole /\ d.q = qp.q
                  /\ (d.data = data \/ qp.changing \/ cp # Idle \/ ver # d.ver
                      \/ (d.racing /\ d.ver \in lost))
=============================================================================
