------------------------------- MODULE Parsers ------------------------------
(* Metadata parsers as the clients of a server (or of a local directory)    *)
(* see them: classes registered under names, which compute the properties   *)
(* of the samples of datasets registered with a name. What a class computes *)
(* is its variant, the operator Parsed. A name keeps its class; a dataset   *)
(* keeps what the class computed when the dataset was registered; parsers   *)
(* live as long as the process, datasets longer.                            *)
EXTENDS Integers, Sequences, FiniteSets

Builtin == {"RED_PAJAMA", "SLIM_PAJAMA", "IMAGENET_WEB_DATASET", "FINEWEB", "MSCOCO", "PILE"}
Rng(q) == {q[k] : k \in DOMAIN q}
Some(x) == IF x = {} THEN {} ELSE {x}

(* rec: [lang (sequence), topic, n, text]; at: its index in the file, from 0 *)
Parsed(variant, rec, at) ==
  LET l == Rng(rec.lang) IN
  CASE variant \in {"copy", "helper", "later-line"} -> {<<"lang", l>>, <<"topic", {rec.topic}>>}
    [] variant = "swap"   -> {<<"lang", {rec.topic}>>, <<"topic", {rec.lang[1]}>>}
    [] variant = "const"  -> {<<"topic", {"law"}>>}
    [] variant = "parity" -> {<<"topic", {IF rec.n % 2 = 0 THEN "even" ELSE "odd"}>>, <<"tag", IF rec.n > 2 THEN {"t1", "t2"} ELSE {"t3"}>>}
    [] variant = "line"   -> {<<"topic", {IF at = 0 THEN "first" ELSE "later"}>>, <<"lang", l>>}
    [] variant = "picky"  -> {<<"lang", l>>}

(* A class can be sent to a server if its source makes sense on its own     *)
SentAlone(variant) == variant \notin {"nested", "with-own-base"}
Registers(s, name, variant) == name \notin DOMAIN s.parsers \cup Builtin /\ (s.remote => SentAlone(variant))

(* Parsing fails for records the class cannot deal with                     *)
ParsesRec(s, variant, rec) ==
  CASE variant = "picky" -> rec.n # 3
    [] variant = "foreign-global" -> ~s.remote
    [] OTHER -> TRUE
Parses(s, variant, files) == \A f \in DOMAIN files : \A k \in DOMAIN files[f] : ParsesRec(s, variant, files[f][k])

NewParsers(cfg) == [remote |-> cfg.remote, files |-> cfg.files, parsers |-> <<>>, data |-> <<>>]

Without(f, x) == [k \in DOMAIN f \ {x} |-> f[k]]
With(f, x, v) == [k \in DOMAIN f \cup {x} |-> IF k = x THEN v ELSE f[k]]

RegFailed(s, e) == IF e.ok = Registers(s, e.name, e.variant) THEN {} ELSE {IF e.ok THEN "parser-replaced-or-nonsense-accepted" ELSE "parser-refused"}
RegApply(s, e) == IF Registers(s, e.name, e.variant) THEN [s EXCEPT !.parsers = With(@, e.name, e.variant)] ELSE s

(* Several clients register classes under one name at the same time         *)
RaceFailed(s, e) ==
  LET can == {k \in DOMAIN e.variants : Registers(s, e.name, e.variants[k])} won == {k \in DOMAIN e.oks : e.oks[k]} IN
  IF won \subseteq can /\ Cardinality(won) = (IF can = {} THEN 0 ELSE 1) THEN {} ELSE {"not-one-parser-of-a-name"}
RaceApply(s, e) ==
  IF \E k \in DOMAIN e.oks : e.oks[k] THEN [s EXCEPT !.parsers = With(@, e.name, e.variants[CHOOSE k \in DOMAIN e.oks : e.oks[k]])] ELSE s

Semantics(v) == v \in {"copy", "helper", "later-line", "swap", "const", "parity", "line", "picky"}
Adds(s, e) == e.name \notin DOMAIN s.data /\ e.parser \in DOMAIN s.parsers /\ Parses(s, s.parsers[e.parser], s.files[e.name])
AddFailed(s, e) == IF e.ok = Adds(s, e) THEN {} ELSE {IF e.ok THEN "dataset-registered-without-its-parser" ELSE "dataset-refused"}
AddApply(s, e) == IF Adds(s, e) THEN [s EXCEPT !.data = With(@, e.name, s.parsers[e.parser])] ELSE s
RemoveFailed(s, e) == IF e.ok = (e.name \in DOMAIN s.data) THEN {} ELSE {"wrong-datasets-reported"}
RemoveApply(s, e) == [s EXCEPT !.data = Without(@, e.name)]

(* variants that compute what "copy" computes, in other ways                *)
Same(v) == IF v \in {"foreign-global", "nested", "with-own-base"} THEN "copy" ELSE v
Expected(s) ==
  UNION {UNION {{<<s.files[d][f][k].text, Parsed(Same(s.data[d]), s.files[d][f][k], k - 1)>> : k \in DOMAIN s.files[d][f]}
                : f \in DOMAIN s.files[d]} : d \in DOMAIN s.data}
Seen(rows) == {<<rows[k].text, {<<p[1], Rng(p[2])>> : p \in Rng(rows[k].props)}>> : k \in DOMAIN rows}
ReadFailed(s, e) ==
  (IF Seen(e.rows) = Expected(s) THEN {} ELSE {"properties-are-not-what-the-parser-computes"})
  \cup (IF Len(e.rows) = Cardinality(Expected(s)) THEN {} ELSE {"samples-missing-or-repeated"})

Restarted(s) == [s EXCEPT !.parsers = <<>>]
=============================================================================
