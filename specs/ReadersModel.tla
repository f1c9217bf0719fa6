----------------------------- MODULE ReadersModel ---------------------------
(* The readers as built. Lines: a cursor that skips to the next range.      *)
(* Row groups: two pointers over the ranges and the groups distribute the   *)
(* ranges to the groups, which are then read one by one in batches.         *)
(* Scanning: batches of rows are numbered by a running counter.             *)
(* All layouts and requests up to the bounds.                               *)
EXTENDS Readers, TLC
CONSTANTS MaxRows, MaxGroups, MaxRanges, MaxBatch, Strict

VARIABLES kind, groups, ranges, batch, pc, out, rg, ri, sel, cur
vars == <<kind, groups, ranges, batch, pc, out, rg, ri, sel, cur>>

RECURSIVE Sum(_)
Sum(q) == IF q = <<>> THEN 0 ELSE Head(q) + Sum(Tail(q))
Sizes == UNION {[1..k -> 0..MaxRows] : k \in 0..MaxGroups}
Pairs == {<<a, b>> : a \in 0..MaxRows, b \in 0..(MaxRows + 1)}
Requests == {rs \in UNION {[1..k -> Pairs] : k \in 0..MaxRanges} : WellFormed(rs)}
N == Sum(groups)
Start(g) == Sum(SubSeq(groups, 1, g - 1))
End(g) == Sum(SubSeq(groups, 1, g))

Init ==
  /\ kind \in {"lines", "groups", "scan"}
  /\ groups \in {g \in Sizes : Sum(g) <= MaxRows}
  /\ kind = "lines" => Len(groups) <= 1
  /\ ranges \in IF kind = "scan" THEN {<<>>} ELSE Requests
  /\ batch \in 1..(IF kind = "lines" THEN 1 ELSE MaxBatch)
  /\ pc = "start" /\ out = <<>> /\ rg = 1 /\ ri = 1 /\ sel = <<>> /\ cur = 0

(* lines *)
Lines ==
  /\ kind = "lines" /\ pc = "start"
  /\ IF ri > Len(ranges) THEN pc' = "done" /\ UNCHANGED <<out, ri, cur>>
     ELSE LET lo == ranges[ri][1]  hi == ranges[ri][2] IN
          IF cur < lo THEN cur' = lo /\ UNCHANGED <<out, ri, pc>>                       \* skip
          ELSE IF cur >= hi THEN ri' = ri + 1 /\ UNCHANGED <<out, cur, pc>>
          ELSE IF cur >= N THEN (IF Strict THEN pc' = "error" /\ UNCHANGED <<out, ri, cur>> ELSE ri' = ri + 1 /\ UNCHANGED <<out, cur, pc>>)
          ELSE out' = Append(out, cur) /\ cur' = cur + 1 /\ UNCHANGED <<ri, pc>>
  /\ UNCHANGED <<kind, groups, ranges, batch, rg, sel>>

(* row groups: sel[g] = ranges relative to the start of the group *)
Distribute ==
  /\ kind = "groups" /\ pc = "start"
  /\ IF ri > Len(ranges) \/ rg > Len(groups)
     THEN pc' = "read" /\ rg' = 1 /\ ri' = 1 /\ UNCHANGED sel
     ELSE LET lo == ranges[ri][1]  hi == ranges[ri][2]  s == Start(rg)  e == End(rg) IN
          IF hi <= s THEN ri' = ri + 1 /\ UNCHANGED <<rg, sel, pc>>
          ELSE IF lo >= e THEN rg' = rg + 1 /\ UNCHANGED <<ri, sel, pc>>
          ELSE LET a == IF lo > s THEN lo ELSE s  b == IF hi < e THEN hi ELSE e IN
               /\ sel' = Append(sel, <<rg, a - s, b - s>>)
               /\ IF hi <= e THEN ri' = ri + 1 /\ UNCHANGED rg ELSE rg' = rg + 1 /\ UNCHANGED ri
               /\ UNCHANGED pc
  /\ UNCHANGED <<kind, groups, ranges, batch, out, cur>>
ReadGroups ==     \* sel is ascending; slices of at most batch rows
  /\ kind = "groups" /\ pc = "read"
  /\ IF sel = <<>> THEN pc' = "done" /\ UNCHANGED <<sel, out>>
     ELSE LET g == sel[1][1]  a == sel[1][2]  b == sel[1][3]
              c == IF b - a > batch THEN a + batch ELSE b IN
          /\ out' = out \o [x \in 1..(c - a) |-> Start(g) + a + x - 1]
          /\ sel' = IF c = b THEN Tail(sel) ELSE <<<<g, c, b>>>> \o Tail(sel)
          /\ UNCHANGED pc
  /\ UNCHANGED <<kind, groups, ranges, batch, rg, ri, cur>>

(* scanning: sel unused; row r of the file gets number cur *)
Scan ==
  /\ kind = "scan" /\ pc = "start"
  /\ IF ri > N THEN pc' = "done" /\ UNCHANGED <<out, cur, ri>>
     ELSE LET k == IF N - ri + 1 > batch THEN batch ELSE N - ri + 1 IN
          /\ out' = out \o [x \in 1..k |-> cur + x - 1]
          /\ cur' = cur + k /\ ri' = ri + k /\ UNCHANGED pc
  /\ UNCHANGED <<kind, groups, ranges, batch, rg, sel>>

Next == Lines \/ Distribute \/ ReadGroups \/ Scan
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

RECURSIVE Rows(_)
Rows(rs) == IF rs = <<>> THEN <<>> ELSE [x \in 1..(rs[1][2] - rs[1][1]) |-> rs[1][1] + x - 1] \o Rows(Tail(rs))
Done == pc = "done"
RowsRead == Done /\ kind # "scan" => out = Rows(Clip(N, ranges))
NothingConcealed == Done /\ kind = "lines" => Covered(N, ranges)
ErrorsHaveCause == pc = "error" => ~Covered(N, ranges)
Numbered == Done /\ kind = "scan" => out = [x \in 1..N |-> x - 1]
(* the description by runs determines the rows *)
RunsFaithful == pc = "start" /\ ri = 1 /\ out = <<>> => Rows(Runs(ranges)) = Rows(ranges)
Ends == <>(pc \in {"done", "error"})
=============================================================================
