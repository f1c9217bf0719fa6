--------------------------- MODULE MetadataModel ----------------------------
(* Recording as built: property by property, stopping at the first that is  *)
(* refused; and samples collected into batches file by file, whose results  *)
(* are joined with the samples again. For all declarations of two           *)
(* properties and all values; for all small files and batch sizes.          *)
EXTENDS Metadata, TLC
CONSTANTS Vals, MaxFiles, MaxRows, MaxBatch
VARIABLES mode, decl, xs, j, rec, files, size, cur, out, res, pos
vars == <<mode, decl, xs, j, rec, files, size, cur, out, res, pos>>

Decls == {Prop(e, m, n, o) : e \in BOOLEAN, m \in BOOLEAN, n \in BOOLEAN, o \in SUBSET Vals}
Given == {Absent, Null} \cup {One(v) : v \in Vals} \cup {[k |-> "list", vs |-> q] : q \in UNION {[1..n -> Vals] : n \in 0..2}}
FileSeqs == UNION {[1..n -> 0..MaxRows] : n \in 0..MaxFiles}
Rows(ns) == [f \in DOMAIN ns |-> [id |-> f, ds |-> 1, rows |-> [r \in 1..ns[f] |-> 10 * f + r]]]
Init ==
  \/ /\ mode = "record" /\ decl \in {<<a, b>> : a \in Decls, b \in Decls} /\ xs \in {<<a, b>> : a \in Given, b \in Given}
     /\ j = 1 /\ rec = <<>> /\ files = <<>> /\ size = 1 /\ cur = <<>> /\ out = <<>> /\ res = <<>> /\ pos = <<1, 1>>
  \/ /\ mode = "load" /\ decl = <<>> /\ xs = <<>> /\ j = 1 /\ rec = <<>> /\ files \in {Rows(ns) : ns \in FileSeqs} /\ size \in 1..MaxBatch
     /\ cur = <<>> /\ out = <<>> /\ res = <<>> /\ pos = <<1, 1>>
Check ==
  /\ mode = "record" /\ j <= Len(decl)
  /\ IF Refused(decl[j], xs[j]) THEN mode' = "refused" /\ UNCHANGED <<rec, j>>
     ELSE rec' = Append(rec, Record(decl[j], xs[j])) /\ j' = j + 1 /\ mode' = IF j = Len(decl) THEN "recorded" ELSE mode
  /\ UNCHANGED <<decl, xs, files, size, cur, out, res, pos>>
Load ==
  /\ mode = "load"
  /\ IF pos[1] > Len(files)
     THEN /\ mode' = "calc" /\ pos' = <<1, 1>> /\ out' = IF cur = <<>> THEN out ELSE Append(out, cur)
          /\ cur' = <<>>
     ELSE IF pos[2] > Len(files[pos[1]].rows) THEN pos' = <<pos[1] + 1, 1>> /\ UNCHANGED <<mode, out, cur>>
     ELSE LET c == Append(cur, [f |-> files[pos[1]].id, d |-> 1, line |-> pos[2] - 1, x |-> files[pos[1]].rows[pos[2]]]) IN
          /\ pos' = <<pos[1], pos[2] + 1>> /\ mode' = mode
          /\ IF Len(c) = size THEN out' = Append(out, c) /\ cur' = <<>> ELSE out' = out /\ cur' = c
  /\ UNCHANGED <<decl, xs, j, rec, files, size, res>>
Calc ==
  /\ mode = "calc"
  /\ IF pos[1] > Len(out) THEN mode' = "done" /\ UNCHANGED <<res, pos>>
     ELSE /\ res' = res \o [k \in DOMAIN out[pos[1]] |-> <<out[pos[1]][k].f, out[pos[1]][k].line, out[pos[1]][k].x>>]
          /\ pos' = <<pos[1] + 1, 1>> /\ mode' = mode
  /\ UNCHANGED <<decl, xs, j, rec, files, size, cur, out>>
Next == Check \/ Load \/ Calc
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

AsSpecified == /\ (mode = "refused" => AnyRefused(decl, xs))
               /\ (mode = "recorded" => ~AnyRefused(decl, xs) /\ rec = Recorded(decl, xs))
(* What is recorded would be recorded again, unchanged *)
Stable == mode = "recorded" => ~AnyRefused(decl, rec) /\ Recorded(decl, rec) = rec
Single == mode = "recorded" => \A p \in DOMAIN decl : (rec[p].k = "list" => decl[p].multi) /\ (rec[p].k = "null" => decl[p].nullable)
Batched == mode \in {"calc", "done"} => out = Batches(InOrder(files, 1), size)
Own == mode = "done" =>
  /\ Len(res) = Len(InOrder(files, 1))
  /\ \A k \in DOMAIN res : files[res[k][1]].rows[res[k][2] + 1] = res[k][3]
Ends == <>(mode \in {"refused", "recorded", "done"})
=============================================================================
