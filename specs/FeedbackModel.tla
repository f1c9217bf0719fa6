--------------------------- MODULE FeedbackModel ----------------------------
(* A training loop with W loader workers which receive chunks ahead of it.  *)
(* Mixtures change after reports, chunks come in the order of the mixtures; *)
(* a worker ends when nothing is left, while the loop still has its data.   *)
EXTENDS Feedback, TLC
CONSTANTS W, NChunks, Jobs, Ahead
VARIABLES job, handed, mixture, queue, ended, used, client, sent, step
vars == <<job, handed, mixture, queue, ended, used, client, sent, step>>
Init == /\ job = 1 /\ handed = 0 /\ mixture = 0 /\ queue = [w \in 1..W |-> <<>>] /\ ended = {} /\ used = -1
        /\ client = NewClient /\ sent = <<>> /\ step = 0
Fetch(w) == /\ w \notin ended /\ handed < NChunks /\ Len(queue[w]) < Ahead
            /\ handed' = handed + 1 /\ queue' = [queue EXCEPT ![w] = Append(@, mixture)]
            /\ client' = Received(client, ToString(job), mixture)
            /\ UNCHANGED <<job, mixture, ended, used, sent, step>>
End(w) == /\ w \notin ended /\ handed = NChunks /\ ended' = ended \cup {w}
          /\ UNCHANGED <<job, handed, mixture, queue, used, client, sent, step>>
(* The loop trains on a chunk and reports (what else it reports is of no    *)
(* importance here); the mixture may change because of it                   *)
Train(w) == /\ queue[w] # <<>>
            /\ queue' = [queue EXCEPT ![w] = Tail(@)] /\ used' = Max2(used, queue[w][1])
            /\ LET e == [dp |-> 0, tp |-> 0, job |-> ToString(job), step |-> step, l |-> <<1>>, n |-> <<1>>] IN
               sent' = sent \o Reported(e, client.newest)
            /\ step' = step + 1 /\ mixture' \in {mixture, mixture + 1}
            /\ UNCHANGED <<job, handed, ended, client>>
(* Next job of this client *)
Again == /\ job < Jobs /\ ended = 1..W /\ \A w \in 1..W : queue[w] = <<>>
         /\ job' = job + 1 /\ handed' = 0 /\ mixture' = 0 /\ queue' = [w \in 1..W |-> <<>>] /\ ended' = {} /\ used' = -1
         /\ UNCHANGED <<client, sent, step>>
Next == Again \/ \E w \in 1..W : Fetch(w) \/ End(w) \/ Train(w)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Of(j) == SelectSeq(sent, LAMBDA r : r.job = ToString(j))
(* Every report of the loop names a mixture of its job, at least as new as  *)
(* all data it trained on, and never an older one than the report before    *)
Known == LET r == Of(job) IN r # <<>> => r[Len(r)].m \in used..mixture
Monotone == \A j \in 1..Jobs : \A k \in 2..Len(Of(j)) : Of(j)[k - 1].m <= Of(j)[k].m
Once == Len(sent) = step
ToTheEnd == <>(job = Jobs /\ Len(Of(Jobs)) = NChunks)
=============================================================================
