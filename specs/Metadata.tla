------------------------------ MODULE Metadata ------------------------------
(* What is recorded about samples. A property is [enum, multi, nullable,    *)
(* options]. A value is <<kind>> \o values: "absent" and "null" have none,  *)
(* "one" has one, "list" any number. Values are numbers, 0 is the empty     *)
(* text. A parser gives the values of a sample all at once: they are        *)
(* recorded, or the sample is refused and nothing is.                       *)
EXTENDS Integers, Sequences, FiniteSets

Absent == [k |-> "absent", vs |-> <<>>]
Null == [k |-> "null", vs |-> <<>>]
One(v) == [k |-> "one", vs |-> <<v>>]
Missing(x) == x.k \in {"absent", "null"}
ValuesOf(x) == {x.vs[i] : i \in DOMAIN x.vs}

Refused(p, x) ==
  \/ Missing(x) /\ ~p.nullable
  \/ x.k = "list" /\ ~p.multi
  \/ ~Missing(x) /\ p.enum /\ ~(ValuesOf(x) \subseteq p.options)
Record(p, x) == IF Missing(x) THEN Null ELSE IF p.multi THEN [k |-> "list", vs |-> x.vs] ELSE x
AnyRefused(decl, xs) == \E j \in DOMAIN decl : Refused(decl[j], xs[j])
Recorded(decl, xs) == [j \in DOMAIN decl |-> Record(decl[j], xs[j])]

(* The parsers that come with the system: the values they take from a       *)
(* record with these fields (in the order of the declaration)               *)
Prop(enum, multi, nullable, options) == [enum |-> enum, multi |-> multi, nullable |-> nullable, options |-> options]
Declared(name, options) ==
  CASE name = "RED_PAJAMA" -> <<Prop(FALSE, TRUE, TRUE, {}), Prop(FALSE, FALSE, TRUE, {})>>
    [] name \in {"SLIM_PAJAMA", "PILE"} -> <<Prop(TRUE, FALSE, FALSE, options)>>
    [] name \in {"IMAGENET_WEB_DATASET", "MSCOCO"} -> <<Prop(FALSE, FALSE, FALSE, {})>>
    [] name = "FINEWEB" -> <<Prop(FALSE, FALSE, FALSE, {}), Prop(TRUE, FALSE, FALSE, options)>>
Taken(name, line, fields) ==
  CASE name = "RED_PAJAMA" -> <<IF fields[1].vs = <<>> THEN Null ELSE fields[1], IF fields[2].vs \in {<<>>, <<0>>} THEN Null ELSE fields[2]>>
    [] name = "MSCOCO" -> <<One((line % 3) + 1)>>      \* 1, 2, 3 are the texts "0", "1", "2"
    [] OTHER -> fields

(* Batches given to a function, over all files: [f, line, x] per sample     *)
RECURSIVE Batches(_, _)
Batches(all, size) ==
  IF all = <<>> THEN <<>>
  ELSE IF Len(all) <= size THEN <<all>>
  ELSE <<SubSeq(all, 1, size)>> \o Batches(SubSeq(all, size + 1, Len(all)), size)
RECURSIVE InOrder(_, _)
InOrder(files, f) ==
  IF f > Len(files) THEN <<>> ELSE [j \in DOMAIN files[f].rows |-> [f |-> files[f].id, d |-> files[f].ds, line |-> j - 1, x |-> files[f].rows[j]]] \o InOrder(files, f + 1)
=============================================================================
