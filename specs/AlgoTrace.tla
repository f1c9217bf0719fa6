------------------------------ MODULE AlgoTrace -----------------------------
(* Mixing algorithms of the real system. cfg: c, and exact: whether the     *)
(* laws were fitted by the stand-in. Events:                                *)
(*  report  l, n, m; pi: shares in units (<<>>: none), fits: set of series  *)
(*          (as sequence), fitted: whether any                              *)
(*  copy    the algorithm was copied (as checkpoints do) and goes on        *)
EXTENDS Algo, Tracing
InitState(cfg) == [c |-> cfg.c, a |-> NewAlgo(cfg.c), exact |-> cfg.exact]
Abs(x) == IF x < 0 THEN 0 - x ELSE x
Tol == 3000
Valid(pi) == (\A k \in DOMAIN pi : pi[k] >= 0) /\ Abs(Sum(pi) - S) <= 50
Failed(s, e) ==
  CASE e.ev = "report" ->
         LET r == TLCEval(Report(s.c, s.a, e))
             K == Len(r.a.C)
             pi == TLCEval(Pad(e.pi, K, 0)) IN
         (IF s.exact /\ {e.fits[j] : j \in DOMAIN e.fits} # r.fits THEN {"fitted-to-wrong-data"} ELSE {})
         \cup (IF (e.pi = <<>>) # (r.pi = <<>>) THEN {IF e.pi = <<>> THEN "update-missing" ELSE "update-unexpected"}
               ELSE IF e.pi = <<>> THEN {}
               ELSE IF ~Valid(e.pi) THEN {"not-a-distribution"}
               ELSE IF \E k \in DOMAIN pi : k > K /\ pi[k] # 0 THEN {"unknown-component"}
               ELSE IF s.c.kind = "ado" /\ \E k \in 1..K : r.a.C[k] > 0 /\ pi[k] < MulDiv(s.c.dmin, S, S + K * s.c.dmin) - 20 THEN {"below-minimum"}
               ELSE IF s.exact /\ \E k \in 1..K : Abs(pi[k] - r.pi[k]) > Tol THEN {"share-wrong"} ELSE {})
    [] e.ev = "copy" -> {}
    [] OTHER -> CrashFailed(e)
Apply(s, e) == IF e.ev = "report" THEN [s EXCEPT !.a = Report(s.c, s.a, e).a] ELSE s
VARIABLES t, i, s, bad
INSTANCE TraceMachine
=============================================================================
