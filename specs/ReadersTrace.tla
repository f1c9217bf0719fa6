----------------------------- MODULE ReadersTrace ---------------------------
(* Real files read by the real readers. cfg.files: [base, n] per file; row  *)
(* x of file f is called base + x. Events:                                  *)
(*  files  found, want     files found in a directory                       *)
(*  scan   f, nums, runs   rows recorded by the metadata scan               *)
(*  read   kind, parts, runs, failed   parts: [f, ranges]; the rows read    *)
(*         (-1: none of the file), whether an error ended it                *)
EXTENDS Readers, Tracing
InitState(cfg) == [files |-> cfg.files]
RECURSIVE Want(_, _)
Want(s, parts) == IF parts = <<>> THEN <<>>
                  ELSE Shift(s.files[parts[1].f].base, Clip(s.files[parts[1].f].n, parts[1].ranges)) \o Want(s, Tail(parts))
AllCovered(s, parts) == \A i \in DOMAIN parts : Covered(s.files[parts[i].f].n, parts[i].ranges)
IsPrefix(a, b) == Len(a) <= Len(b) /\ \A i \in DOMAIN a : a[i] = b[i]
Upto(want, runs) ==       \* runs describe a beginning of want
  \/ runs = <<>>
  \/ /\ Len(runs) <= Len(want)
     /\ IsPrefix(SubSeq(runs, 1, Len(runs) - 1), want)
     /\ Last(runs)[1] = want[Len(runs)][1] /\ Last(runs)[2] <= want[Len(runs)][2]
Failed(s, e) ==
  CASE e.ev = "files" -> (IF Cardinality({e.found[i] : i \in DOMAIN e.found}) < Len(e.found) THEN {"file-listed-twice"} ELSE {})
                         \cup (IF {e.found[i] : i \in DOMAIN e.found} # {e.want[i] : i \in DOMAIN e.want} THEN {"wrong-files"} ELSE {})
    [] e.ev = "scan" -> LET f == s.files[e.f] IN
         (IF e.nums # Runs(<<<<0, f.n>>>>) THEN {"scan-numbering"} ELSE {})
         \cup (IF e.runs # Runs(<<<<f.base, f.base + f.n>>>>) THEN {"scan-records"} ELSE {})
    [] e.ev = "read" -> LET want == Runs(Want(s, e.parts)) IN
         (IF \E i \in DOMAIN e.runs : e.runs[i][1] < 0 THEN {"record-changed"}
          ELSE IF IF e.failed THEN ~Upto(want, e.runs) ELSE e.runs # want THEN {"wrong-rows"} ELSE {})
         \cup (IF e.failed /\ AllCovered(s, e.parts) THEN {"reader-fails"} ELSE {})
         \cup (IF ~e.failed /\ ~AllCovered(s, e.parts) /\ e.kind # "parquet" THEN {"short-file-concealed"} ELSE {})
    [] OTHER -> CrashFailed(e)
Apply(s, e) == s
VARIABLES t, i, s, bad
INSTANCE TraceMachine
=============================================================================
