----------------------------- MODULE WireModel ------------------------------
(* The framing itself: header with the length, then that many bytes. The    *)
(* network delivers any prefix in any pieces and may end or stall; the      *)
(* reader asks for as many bytes as the present part of the frame needs.    *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Header,        \* bytes of a header
          MaxLen, MaxMsgs,
          Exact          \* read until all bytes are there (FALSE: what one read returns)
VARIABLES msgs,          \* payload lengths of the messages written
          net,           \* bytes delivered but not read, bytes not yet delivered
          open, rd, got
vars == <<msgs, net, open, rd, got>>

(* the stream as a sequence of <<message, part, index>>                     *)
Frame(k, n) == [x \in 1..Header |-> <<k, "h", x>>] \o [x \in 1..n |-> <<k, "p", x>>]
RECURSIVE Stream(_, _)
Stream(ms, k) == IF k > Len(ms) THEN <<>> ELSE Frame(k, ms[k]) \o Stream(ms, k + 1)

Init == /\ \E n \in 0..MaxMsgs : msgs \in [1..n -> 0..MaxLen]
        /\ net = [here |-> <<>>, rest |-> Stream(msgs, 1)]
        /\ open = "open" /\ rd = [part |-> "h", need |-> Header, buf |-> <<>>, msg |-> 0] /\ got = <<>>
Deliver == /\ open = "open" /\ net.rest # <<>>
           /\ \E n \in 1..Len(net.rest) : net' = [here |-> net.here \o SubSeq(net.rest, 1, n), rest |-> SubSeq(net.rest, n + 1, Len(net.rest))]
           /\ UNCHANGED <<msgs, open, rd, got>>
Close == open = "open" /\ open' \in {"closed", "stalled"} /\ UNCHANGED <<msgs, net, rd, got>>
Take ==
  /\ rd.part \in {"h", "p"} /\ rd.need > Len(rd.buf) /\ net.here # <<>>
  /\ \E n \in 1..Len(net.here) :
       /\ n <= rd.need - Len(rd.buf)
       /\ LET b == rd.buf \o SubSeq(net.here, 1, n) IN
          rd' = [rd EXCEPT !.buf = b, !.need = IF Exact THEN @ ELSE Len(b)]
       /\ net' = [net EXCEPT !.here = SubSeq(@, n + 1, Len(@))]
  /\ UNCHANGED <<msgs, open, got>>
(* A header tells the length of the payload of the message it belongs to    *)
Parse ==
  /\ rd.part \in {"h", "p"} /\ Len(rd.buf) = rd.need
  /\ IF rd.part = "h"
     THEN /\ rd' = [part |-> "p", need |-> IF rd.buf # <<>> /\ rd.buf[1][2] = "h" THEN msgs[rd.buf[1][1]] ELSE 0, buf |-> <<>>,
                    msg |-> IF rd.buf # <<>> THEN rd.buf[1][1] ELSE 0] /\ UNCHANGED got
     ELSE /\ got' = Append(got, [msg |-> rd.msg, buf |-> rd.buf])
          /\ rd' = [part |-> "h", need |-> Header, buf |-> <<>>, msg |-> 0]
  /\ UNCHANGED <<msgs, net, open>>
GiveUp == /\ rd.part \in {"h", "p"} /\ Len(rd.buf) < rd.need /\ net.here = <<>> /\ open # "open"
          /\ rd' = [rd EXCEPT !.part = IF rd.buf = <<>> THEN "none" ELSE "error"] /\ UNCHANGED <<msgs, net, open, got>>
Next == Deliver \/ Close \/ Take \/ Parse \/ GiveUp
Spec == Init /\ [][Next]_vars /\ WF_vars(Deliver \/ Close) /\ WF_vars(Take) /\ WF_vars(Parse) /\ WF_vars(GiveUp)

WholeAndInOrder == \A k \in DOMAIN got : got[k].msg = k /\ got[k].buf = [x \in 1..msgs[k] |-> <<k, "p", x>>]
Ends == <>(rd.part \in {"none", "error"} \/ Len(got) = Len(msgs))
=============================================================================
