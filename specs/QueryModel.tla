---------------------------- MODULE QueryModel ------------------------------
(* The two stages between the metadata table and the chunk index, exhausted *)
(* for small tables: (1) the selected rows of a file are folded, in order,  *)
(* into maximal runs of consecutive rows with the same property values;     *)
(* (2) the runs are distributed over threads which group them, in any       *)
(* interleaving, and the groups are merged. Also the laws of conditions.    *)
EXTENDS Query, TLC

CONSTANTS NRows, NVals, NThreads
Props == {<<>>} \cup {<< <<"f", <<v>> >> >> : v \in 0..NVals - 1} \cup {<< <<"f", <<0, 1>> >> >>}
Vals == 0..NVals - 1

VARIABLES table,   \* the recorded samples of one file
          sel,     \* the condition of the query
          runs, at,\* runs found so far; next row to look at
          local, todo, \* per thread: groups <<p, intervals>>; runs left
          index, phase
vars == <<table, sel, runs, at, local, todo, index, phase>>

Conds == [f : {"f"}, op : {"==", "!=", "<", ">="}, vals : {<<v>> : v \in Vals} \cup {<<0, 1>>}, null : {FALSE}]
         \cup [f : {"f"}, op : {"==", "!="}, vals : {<<>>}, null : {TRUE}]

Init == /\ table \in [1..NRows -> Props]
        /\ sel \in Conds
        /\ runs = <<>> /\ at = 1 /\ phase = "fold" /\ index = <<>>
        /\ local = [t \in 1..NThreads |-> <<>>] /\ todo = [t \in 1..NThreads |-> <<>>]

Samples == [n \in 1..NRows |-> [ds |-> 0, file |-> 0, row |-> n - 1, p |-> table[n]]]

(* All rows with the same values are partitioned; a row extends the run of  *)
(* its values which ends right before it.                                   *)
Fold ==
  /\ phase = "fold" /\ at <= NRows
  /\ at' = at + 1
  /\ LET here == {k \in DOMAIN runs : SameProps(runs[k].p, table[at]) /\ runs[k].iv[2] = at - 1} IN
     runs' = IF ~Satisfies(Samples[at], sel) THEN runs
             ELSE IF here = {} THEN Append(runs, [p |-> table[at], iv |-> <<at - 1, at>>])
             ELSE LET k == CHOOSE k \in here : TRUE IN [runs EXCEPT ![k].iv[2] = at]
  /\ UNCHANGED <<table, sel, local, todo, index, phase>>

(* Contiguous shares of the runs, as even as possible. *)
Split ==
  /\ phase = "fold" /\ at > NRows
  /\ LET per == (Len(runs) + NThreads - 1) \div NThreads IN
     todo' = [t \in 1..NThreads |-> SubSeq(runs, (t - 1) * per + 1, IF t * per < Len(runs) THEN t * per ELSE Len(runs))]
  /\ phase' = "threads" /\ UNCHANGED <<table, sel, runs, at, local, index>>

Insert(groups, p, ivs) ==
  LET here == {k \in DOMAIN groups : SameProps(groups[k].p, p)} IN
  IF here = {} THEN Append(groups, [p |-> p, ds |-> 0, file |-> 0, iv |-> ivs])
  ELSE LET k == CHOOSE k \in here : TRUE IN [groups EXCEPT ![k].iv = @ \o ivs]

Thread(t) ==
  /\ phase = "threads" /\ todo[t] # <<>>
  /\ local' = [local EXCEPT ![t] = Insert(@, Head(todo[t]).p, <<Head(todo[t]).iv>>)]
  /\ todo' = [todo EXCEPT ![t] = Tail(@)]
  /\ UNCHANGED <<table, sel, runs, at, index, phase>>

RECURSIVE MergeAll(_, _)
MergeAll(idx, groups) == IF groups = <<>> THEN idx ELSE MergeAll(Insert(idx, Head(groups).p, Head(groups).iv), Tail(groups))

Merge(t) ==
  /\ phase = "threads" /\ \A u \in 1..NThreads : todo[u] = <<>>
  /\ local[t] # <<>> /\ \A u \in 1..t - 1 : local[u] = <<>>
  /\ index' = MergeAll(index, local[t])
  /\ local' = [local EXCEPT ![t] = <<>>]
  /\ UNCHANGED <<table, sel, runs, at, todo, phase>>

Finish ==
  /\ phase = "threads" /\ \A u \in 1..NThreads : todo[u] = <<>> /\ local[u] = <<>>
  /\ phase' = "done" /\ UNCHANGED <<table, sel, runs, at, local, todo, index>>

Next == Fold \/ Split \/ (\E t \in 1..NThreads : Thread(t) \/ Merge(t)) \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

(* ---------------------------------------------------------- properties   *)
Expected == Result(Samples, <<<<sel>>>>)
Complete == phase = "done" => UNION {Covered(Samples, index[k]) : k \in DOMAIN index} = Expected
Grouped == phase = "done" => /\ OneEntry(index) /\ Disjoint(index)
                             /\ \A k \in DOMAIN index : Proper(index[k]) /\ Exact(Samples, index[k])
RunsMaximal == phase = "done" => \A k \in DOMAIN index : \A j \in DOMAIN index[k].iv : j > 1 => index[k].iv[j - 1][2] < index[k].iv[j][1]
Terminates == <>(phase = "done")

C(op, vals) == [f |-> "f", op |-> op, vals |-> vals, null |-> FALSE]
Null(op) == [f |-> "f", op |-> op, vals |-> <<>>, null |-> TRUE]
Laws == \A n \in DOMAIN Samples : LET x == Samples[n] IN
  /\ Satisfies(x, Null("==")) # Satisfies(x, Null("!="))
  /\ \A v \in Vals :
       /\ Recorded(x, "f") => (Satisfies(x, C("==", <<v>>)) # Satisfies(x, C("!=", <<v>>)))
       /\ ~Recorded(x, "f") => \A op \in {"==", "!=", "<", "<=", ">", ">="} : ~Satisfies(x, C(op, <<v>>))
       /\ Satisfies(x, C("<=", <<v>>)) <=> (Satisfies(x, C("<", <<v>>)) \/ Satisfies(x, C("==", <<v>>)))
       /\ Recorded(x, "f") => (Satisfies(x, C("<", <<v>>)) \/ Satisfies(x, C(">=", <<v>>)))
       /\ \A w \in Vals : Satisfies(x, C("==", <<v, w>>)) <=> (Satisfies(x, C("==", <<v>>)) \/ Satisfies(x, C("==", <<w>>)))
       /\ \A w \in Vals : Satisfies(x, C("!=", <<v, w>>)) <=> (Satisfies(x, C("!=", <<v>>)) /\ Satisfies(x, C("!=", <<w>>)))
=============================================================================
