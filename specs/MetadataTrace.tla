---------------------------- MODULE MetadataTrace ---------------------------
(* Metadata parsers and property calculation of the real system. Events:    *)
(*  parser  decl / builtin (name), options     a parser for a new file      *)
(*  sample  line, xs (given or fields), refused                             *)
(*  meta    recs: [line, got, extra]           all that is recorded         *)
(*  factory op, name, cls, overwrite, result   result: class or 0 (refused) *)
(*  calc    files, size, batches, res, refused, wrong, setups               *)
(*          wrong: the function itself misbehaves                           *)
EXTENDS Metadata, Tracing
InitState(cfg) == [name |-> "", decl |-> <<>>, recs |-> <<>>, factory |-> <<>>]
Decl(e) == IF e.builtin = "" THEN [j \in DOMAIN e.decl |-> [e.decl[j] EXCEPT !.options = {e.decl[j].options[k] : k \in DOMAIN e.decl[j].options}]]
           ELSE Declared(e.builtin, {e.options[k] : k \in DOMAIN e.options})
Given(s, e) == IF s.name = "" THEN e.xs ELSE Taken(s.name, e.line, e.xs)
Find(q, n) == {j \in DOMAIN q : q[j][1] = n}
Lookup(q, n) == IF Find(q, n) = {} THEN 0 ELSE q[CHOOSE j \in Find(q, n) : TRUE][2]
Put(q, n, c) == <<<<n, c>>>> \o SelectSeq(q, LAMBDA x : x[1] # n)
FactoryResult(s, e) ==
  CASE e.op = "add" -> IF Lookup(s.factory, e.name) = 0 \/ e.overwrite THEN 1 ELSE 0
    [] e.op = "remove" -> 0
    [] e.op = "create" -> Lookup(s.factory, e.name)
RECURSIVE Joined(_)
Joined(bs) == IF bs = <<>> THEN 0 ELSE Len(bs[1]) + Joined(Tail(bs))
Failed(s, e) ==
  CASE e.ev = "parser" ->
         IF e.builtin # "" /\ [j \in DOMAIN e.decl |-> <<e.decl[j].enum, e.decl[j].multi, e.decl[j].nullable>>]
                              # [j \in DOMAIN Decl(e) |-> <<Decl(e)[j].enum, Decl(e)[j].multi, Decl(e)[j].nullable>>]
         THEN {"declaration-wrong"} ELSE {}
    [] e.ev = "sample" ->
         IF e.refused # AnyRefused(s.decl, Given(s, e)) THEN {IF e.refused THEN "valid-sample-refused" ELSE "invalid-sample-recorded"} ELSE {}
    [] e.ev = "meta" ->
         IF [k \in DOMAIN e.recs |-> e.recs[k].line] # [k \in DOMAIN s.recs |-> s.recs[k].line] THEN {"wrong-samples-recorded"}
         ELSE IF \E k \in DOMAIN e.recs : e.recs[k].got # s.recs[k].got \/ e.recs[k].extra # 0 THEN {"wrong-value-recorded"} ELSE {}
    [] e.ev = "factory" -> IF e.result # FactoryResult(s, e) THEN {"wrong-parser"} ELSE {}
    [] e.ev = "calc" ->
         LET all == InOrder(e.files, 1) IN
         IF e.refused # e.wrong THEN {IF e.refused THEN "calculation-failed" ELSE "wrong-result-accepted"}
         ELSE IF e.refused THEN {}
         ELSE (IF e.setups # 1 THEN {"setup"} ELSE {})
              \cup (IF Joined(e.batches) # Len(all) \/ UNION {{e.batches[b][k] : k \in DOMAIN e.batches[b]} : b \in DOMAIN e.batches} # {all[k] : k \in DOMAIN all}
                       \/ \E b \in DOMAIN e.batches : Len(e.batches[b]) \notin 1..e.size
                    THEN {"wrong-batches"} ELSE {})
              \cup (IF Len(e.res) # Len(all) \/ {e.res[k] : k \in DOMAIN e.res} # {[all[k] EXCEPT !.x = e.fn[all[k].x]] : k \in DOMAIN all}
                    THEN {"wrong-results"} ELSE {})
    [] OTHER -> CrashFailed(e)
Apply(s, e) ==
  CASE e.ev = "parser" -> [s EXCEPT !.name = e.builtin, !.decl = Decl(e), !.recs = <<>>]
    [] e.ev = "sample" -> IF e.refused THEN s ELSE [s EXCEPT !.recs = Append(@, [line |-> e.line, got |-> Recorded(s.decl, Given(s, e))])]
    [] e.ev = "factory" /\ e.op = "add" /\ e.result = 1 -> [s EXCEPT !.factory = Put(@, e.name, e.cls)]
    [] e.ev = "factory" /\ e.op = "remove" -> [s EXCEPT !.factory = SelectSeq(@, LAMBDA x : x[1] # e.name)]
    [] OTHER -> s
VARIABLES t, i, s, bad
INSTANCE TraceMachine
=============================================================================
