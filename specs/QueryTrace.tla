---------------------------- MODULE QueryTrace ------------------------------
(* Queries recorded from the code, checked against Query.                   *)
EXTENDS Query, Tracing

InitState(cfg) == [samples |-> cfg.samples, want |-> cfg.want]

(* C12: which samples *)
SelectionFailed(s, e) ==
  LET got == UNION {Covered(s.samples, e.idx[k]) : k \in DOMAIN e.idx}
      exp == Result(s.samples, e.q) IN
  (IF exp \subseteq got THEN {} ELSE {"matching-sample-missing"})
  \cup (IF got \subseteq exp THEN {} ELSE {"sample-does-not-match"})

(* C13: how they are grouped *)
IndexFailed(s, e) ==
  (IF \A k \in DOMAIN e.idx : Proper(e.idx[k]) THEN {} ELSE {"intervals-not-proper-or-not-in-order"})
  \cup (IF OneEntry(e.idx) THEN {} ELSE {"combination-occurs-twice"})
  \cup (IF Disjoint(e.idx) THEN {} ELSE {"sample-under-two-combinations"})
  \cup (IF \A k \in DOMAIN e.idx : Exact(s.samples, e.idx[k]) THEN {} ELSE {"wrong-property-values-or-unknown-rows"})

(* The index of a table of intervals: grouped by combination and file *)
RowsOf(e, x) == {k \in DOMAIN e.rows : e.rows[k].ds = x.ds /\ e.rows[k].file = x.file /\ SameProps(e.rows[k].p, x.p)}
GroupingFailed(e) ==
  LET of == [k \in DOMAIN e.idx |-> RowsOf(e, e.idx[k])] IN
  (IF \A k \in DOMAIN e.idx : \A j \in DOMAIN e.idx[k].iv : j > 1 => e.idx[k].iv[j - 1][2] <= e.idx[k].iv[j][1]
   THEN {} ELSE {"intervals-not-proper-or-not-in-order"})
  \cup (IF \A k, l \in DOMAIN e.idx : k # l => of[k] = {} \/ of[k] # of[l] THEN {} ELSE {"combination-occurs-twice"})
  \cup (IF \A k \in DOMAIN e.idx : /\ Len(e.idx[k].iv) = Cardinality(of[k])
                                    /\ SetOf(e.idx[k].iv) = {e.rows[j].iv : j \in of[k]}
        THEN {} ELSE {"intervals-differ-from-table"})
  \cup (IF UNION {of[k] : k \in DOMAIN e.idx} = DOMAIN e.rows THEN {} ELSE {"rows-of-table-missing"})

Failed(s, e) ==
  CASE e.ev = "query" /\ s.want = "C12" -> SelectionFailed(s, e)
    [] e.ev = "query" /\ s.want = "C13" -> IndexFailed(s, e) \cup SelectionFailed(s, e)
    [] e.ev = "index" -> GroupingFailed(e)
    [] e.ev = "ask" -> {}
    [] OTHER -> CrashFailed(e)
Apply(s, e) == s

VARIABLES t, i, s, bad
INSTANCE TraceMachine
=============================================================================
