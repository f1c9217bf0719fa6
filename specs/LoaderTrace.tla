----------------------------- MODULE LoaderTrace ----------------------------
(* Real loaders of a training job. cfg: G, N, W, ahead, chunks (samples are *)
(* numbered, 0 is none of them), refkeys[x]: the key id of sample x when    *)
(* its chunk is read directly. Events:                                      *)
(*  batch   g, n, w, items: [sample, key], status: what the worker notes    *)
(*          (-1: nothing any more)                                          *)
(*  status  g, n, status: of all workers, seen from the training loop       *)
(*  end     g, n                                                            *)
(*  resume  all loaders start again from a checkpoint just taken            *)
(*  all     every loader has come to its end                                *)
EXTENDS Loader, Tracing
InitState(cfg) == [l |-> Fresh(cfg.G, cfg.N, cfg.W), chunks |-> cfg.chunks, refkeys |-> cfg.refkeys, ahead |-> cfg.ahead,
                   keys |-> {}, resumed |-> {}, gap |-> [x \in Workers(cfg.G, cfg.N, cfg.W) |-> 0], ended |-> {}, W |-> cfg.W]
Chunk(s, y) == CHOOSE c \in DOMAIN s.chunks : \E j \in DOMAIN s.chunks[c] : s.chunks[c][j] = y
Index(s, y) == LET c == Chunk(s, y) IN CHOOSE j \in DOMAIN s.chunks[c] : s.chunks[c][j] = y
Samples(s) == UNION {{s.chunks[c][j] : j \in DOMAIN s.chunks[c]} : c \in DOMAIN s.chunks}
(* First sample after a restart: the one delivered last comes again, or, if *)
(* the worker had run ahead, one a little later                             *)
RECURSIVE Skip(_, _, _)
Skip(s, x, d) ==      \* the places 0..d after the current one
  IF d < 0 THEN {}
  ELSE {<<c, j>> \in UNION {{<<c, k>> : k \in DOMAIN s.chunks[c]} : c \in DOMAIN s.chunks} :
          LET r == Group(x)  p == s.l.at[x] IN
          \/ /\ p.k > 0 /\ s.l.lists[r][p.k] = c /\ j >= p.i /\ j <= p.i + d
          \/ /\ p.k < Len(s.l.lists[r]) /\ s.l.lists[r][p.k + 1] = c
             /\ j <= d - (IF p.k = 0 THEN 0 ELSE Len(s.chunks[s.l.lists[r][p.k]]) - p.i)
          \/ /\ p.k = Len(s.l.lists[r]) /\ c \notin Handed(s.l.lists)
             /\ j <= d - (IF p.k = 0 THEN 0 ELSE Len(s.chunks[s.l.lists[r][p.k]]) - p.i)}
Lenient(s, x) == x \in s.resumed
RECURSIVE Deliver(_, _, _)      \* [ok, s]
Deliver(s, x, ys) ==
  IF ys = <<>> THEN [ok |-> TRUE, s |-> s]
  ELSE LET y == ys[1] IN
       IF y \notin Samples(s) THEN [ok |-> FALSE, s |-> s]
       ELSE LET c == Chunk(s, y)  j == Index(s, y)  r == Group(x) IN
            IF Lenient(s, x)
            THEN IF ~(May(s.chunks, s.l, x, c, j) \/ <<c, j>> \in Skip(s, x, s.ahead)) THEN [ok |-> FALSE, s |-> s]
                 ELSE LET p == s.l.at[x]
                          here == p.k > 0 /\ s.l.lists[r][p.k] = c
                          k == IF here THEN p.k ELSE p.k + 1
                          lists == IF k > Len(s.l.lists[r]) THEN [s.l.lists EXCEPT ![r] = Append(@, c)] ELSE s.l.lists
                      IN Deliver([s EXCEPT !.l.lists = lists, !.l.at[x] = [k |-> k, i |-> j], !.resumed = @ \ {x}], x, Tail(ys))
            ELSE IF ~May(s.chunks, s.l, x, c, j) THEN [ok |-> FALSE, s |-> s]
                 ELSE Deliver([s EXCEPT !.l = Moved(s.l, x, c, j)], x, Tail(ys))
Ids(e) == [q \in DOMAIN e.items |-> e.items[q][1]]
NewKeys(s, e) == s.keys \cup {<<s.refkeys[e.items[q][1]], e.items[q][2]>> : q \in {q \in DOMAIN e.items : e.items[q][1] \in Samples(s)}}
OneToOne(K) == \A a, b \in K : (a[1] = b[1]) <=> (a[2] = b[2])
X(e) == <<e.g, e.n, e.w>>
Why(s, e) ==      \* the first sample that may not come now
  LET bad == CHOOSE q \in DOMAIN e.items : ~Deliver(s, X(e), SubSeq(Ids(e), 1, q)).ok /\ \A p \in 1..(q - 1) : Deliver(s, X(e), SubSeq(Ids(e), 1, p)).ok
      t1 == Deliver(s, X(e), SubSeq(Ids(e), 1, bad - 1)).s
      y == Ids(e)[bad] IN
  IF y \notin Samples(s) THEN {"sample-invented"}
  ELSE LET c == Chunk(s, y) IN
       IF \E r \in DOMAIN t1.l.lists : r # Group(X(e)) /\ \E j \in DOMAIN t1.l.lists[r] : t1.l.lists[r][j] = c THEN {"chunk-of-another-worker"}
       ELSE {"wrong-sample"}
Failed(s, e) ==
  CASE e.ev = "batch" ->
         LET d == Deliver(s, X(e), Ids(e)) IN
         (IF ~d.ok THEN Why(s, e)
          ELSE IF e.status >= 0 /\ e.items # <<>> /\ e.status # Position(d.s.l, X(e)) THEN {"position-wrong"} ELSE {})
         \cup (IF ~OneToOne(NewKeys(s, e)) THEN {"wrong-key"} ELSE {})
    [] e.ev = "end" -> {}
    [] e.ev = "status" -> IF e.exact /\ \E w \in 1..s.W : s.l.at[<<e.g, e.n, w>>].k > 0 /\ e.status[w] # Position(s.l, <<e.g, e.n, w>>)
                          THEN {"position-wrong"} ELSE {}
    [] e.ev = "resume" -> {}
    [] e.ev = "all" -> IF (\A x \in s.resumed : s.l.at[x].k = 0) /\ AllDelivered(s.chunks, s.l) THEN {}
                       ELSE {"samples-missing"}
    [] OTHER -> CrashFailed(e)
Apply(s, e) ==
  CASE e.ev = "batch" -> [Deliver(s, X(e), Ids(e)).s EXCEPT !.keys = NewKeys(s, e)]
    [] e.ev = "resume" -> [s EXCEPT !.resumed = DOMAIN s.l.at]
    [] OTHER -> s
VARIABLES t, i, s, bad
INSTANCE TraceMachine
=============================================================================
