------------------------------- MODULE Query -------------------------------
(* What a query selects, and how the selected samples are grouped into the  *)
(* chunk index.                                                             *)
(*                                                                          *)
(* A sample is a record [ds, file, row, p] where p is a sequence of         *)
(* <<property, values>> (values: a sequence, the recorded values; a missing *)
(* property has no entry).  A condition is [f, op, vals, null], a query a   *)
(* sequence of selects, a select a sequence of conditions.  Values are numbers in *)
(* the order of their text.                                                        *)
EXTENDS Integers, Sequences, FiniteSets


SetOf(q) == {q[k] : k \in DOMAIN q}

Recorded(s, f) == \E k \in DOMAIN s.p : s.p[k][1] = f
Values(s, f) == UNION {SetOf(s.p[k][2]) : k \in {k \in DOMAIN s.p : s.p[k][1] = f}}

Compare(a, op, b) ==
    CASE op = "<"  -> a < b
      [] op = ">"  -> a > b
      [] op = "<=" -> a <= b
      [] op = ">=" -> a >= b

(* A missing property satisfies only the test for being missing. A list of  *)
(* values means any of them (none of them for inequality); a property with  *)
(* several values satisfies a condition if one of its values does.          *)
Satisfies(s, c) ==
    IF c.null THEN (IF c.op = "==" THEN ~Recorded(s, c.f) ELSE Recorded(s, c.f))
    ELSE /\ Recorded(s, c.f)
         /\ CASE c.op = "==" -> Values(s, c.f) \cap SetOf(c.vals) # {}
              [] c.op = "!=" -> Values(s, c.f) \cap SetOf(c.vals) = {}
              [] OTHER       -> \E a \in Values(s, c.f), b \in SetOf(c.vals) : Compare(a, c.op, b)

Selected(s, sel) == \A k \in DOMAIN sel : Satisfies(s, sel[k])

(* Chained selects return what any of them returns. *)
Result(samples, query) == {n \in DOMAIN samples : \E k \in DOMAIN query : Selected(samples[n], query[k])}

(* ------------------------------------------------------------- the index *)
(* An index is a sequence of [p, ds, file, iv]: iv a sequence of intervals  *)
(* <<lo, hi>> of rows (hi excluded).                                        *)
SameProps(p, q) ==
    /\ {p[k][1] : k \in DOMAIN p} = {q[k][1] : k \in DOMAIN q}
    /\ \A k \in DOMAIN p, l \in DOMAIN q :
          p[k][1] = q[l][1] => /\ SetOf(p[k][2]) = SetOf(q[l][2])
                               /\ Len(p[k][2]) = Len(q[l][2])

Rows(e) == UNION {e.iv[k][1] .. (e.iv[k][2] - 1) : k \in DOMAIN e.iv}

Proper(e) ==  /\ \A k \in DOMAIN e.iv : e.iv[k][1] < e.iv[k][2]
              /\ \A k \in DOMAIN e.iv : k > 1 => e.iv[k - 1][2] <= e.iv[k][1]

OneEntry(idx) == \A k, l \in DOMAIN idx :
    (k # l /\ idx[k].ds = idx[l].ds /\ idx[k].file = idx[l].file) => ~SameProps(idx[k].p, idx[l].p)

(* Rows the index covers, as numbers of samples. *)
Covered(samples, e) == {n \in DOMAIN samples : samples[n].ds = e.ds /\ samples[n].file = e.file /\ samples[n].row \in Rows(e)}

Exact(samples, e) ==
    /\ Cardinality(Covered(samples, e)) = Cardinality(Rows(e))
    /\ \A n \in Covered(samples, e) : SameProps(samples[n].p, e.p)

Disjoint(idx) == \A k, l \in DOMAIN idx :
    (k < l /\ idx[k].ds = idx[l].ds /\ idx[k].file = idx[l].file) => Rows(idx[k]) \cap Rows(idx[l]) = {}
=============================================================================
