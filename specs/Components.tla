----------------------------- MODULE Components -----------------------------
(* Components of mixtures: which properties have which values. A component  *)
(* is a sequence of [p, vs]: a property (a number) and the sequence of its  *)
(* values (numbers, in the order of their texts), in the order given.       *)
EXTENDS Integers, Sequences, FiniteSets

SetOf(q) == {q[i] : i \in DOMAIN q}
Props(a) == {a[i].p : i \in DOMAIN a}
Vals(a, p) == LET i == CHOOSE i \in DOMAIN a : a[i].p = p IN SetOf(a[i].vs)

(* Every property a names has a value in common *)
Matches(a, b) == \A p \in Props(a) : /\ p \in Props(b)
                                     /\ \/ Vals(a, p) \cap Vals(b, p) # {}
                                        \/ Vals(a, p) = {} /\ Vals(b, p) = {}
Same(a, b) == Props(a) = Props(b) /\ \A p \in Props(a) : Vals(a, p) = Vals(b, p)

RECURSIVE Ascending(_)
Ascending(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE m \in S : \A x \in S : m <= x IN <<m>> \o Ascending(S \ {m})
RECURSIVE Lex(_, _)       \* of sequences of numbers: -1, 0, 1
Lex(q, r) == IF q = <<>> THEN (IF r = <<>> THEN 0 ELSE -1)
             ELSE IF r = <<>> THEN 1
             ELSE IF q[1] < r[1] THEN -1 ELSE IF q[1] > r[1] THEN 1 ELSE Lex(Tail(q), Tail(r))
RECURSIVE Flatten(_)
Flatten(qq) == IF qq = <<>> THEN <<>> ELSE qq[1] \o Flatten(Tail(qq))
(* Fewer properties first; then property by property the name and the       *)
(* number of values; then the values                                        *)
Names(a) == Ascending(Props(a))
Shape(a) == LET ns == Names(a) IN <<Len(ns)>> \o Flatten([i \in DOMAIN ns |-> <<ns[i], Cardinality(Vals(a, ns[i]))>>])
Content(a) == LET ns == Names(a) IN Flatten([i \in DOMAIN ns |-> Ascending(Vals(a, ns[i]))])
Before(a, b) == LET d == Lex(Shape(a), Shape(b)) IN d < 0 \/ (d = 0 /\ Lex(Content(a), Content(b)) < 0)
=============================================================================
