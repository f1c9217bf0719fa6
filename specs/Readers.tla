------------------------------- MODULE Readers ------------------------------
(* Rows of files. A file of n rows; rows are numbered from 0. Requests are  *)
(* ascending disjoint ranges <<lo, hi>> (hi excluded). What is read is      *)
(* described by its maximal runs of consecutive rows.                       *)
EXTENDS Integers, Sequences, FiniteSets

WellFormed(rs) == /\ \A i \in DOMAIN rs : 0 <= rs[i][1] /\ rs[i][1] <= rs[i][2]
                  /\ \A i, j \in DOMAIN rs : i < j => rs[i][2] <= rs[j][1]
Last(q) == q[Len(q)]
RECURSIVE Runs(_)
Runs(rs) == IF rs = <<>> THEN <<>>
            ELSE LET before == Runs(SubSeq(rs, 1, Len(rs) - 1))  r == Last(rs) IN
                 IF r[1] >= r[2] THEN before
                 ELSE IF before # <<>> /\ Last(before)[2] = r[1]
                      THEN SubSeq(before, 1, Len(before) - 1) \o <<<<Last(before)[1], r[2]>>>>
                      ELSE Append(before, <<r[1], r[2]>>)
Covered(n, rs) == \A i \in DOMAIN rs : rs[i][1] < rs[i][2] => rs[i][2] <= n
Clip(n, rs) == [i \in DOMAIN rs |-> <<IF rs[i][1] < n THEN rs[i][1] ELSE n, IF rs[i][2] < n THEN rs[i][2] ELSE n>>]
Shift(b, rs) == [i \in DOMAIN rs |-> <<b + rs[i][1], b + rs[i][2]>>]
RowsOf(rs) == UNION {{x \in rs[i][1]..(rs[i][2] - 1) : TRUE} : i \in DOMAIN rs}
=============================================================================
