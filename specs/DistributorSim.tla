---------------------------- MODULE DistributorSim --------------------------
(* Random behaviours of DistributorModel as operation sequences to replay.  *)
(* mode steers towards useful ones: "run" drifts apart, "sync" lets slower  *)
(* nodes catch up, "report" takes a checkpoint, "odd" does anything.        *)
EXTENDS DistributorModel, Json
CONSTANT Depth
VARIABLES ops, mode
SimInit == Init /\ ops = <<>> /\ mode = "run"
Log(x) == ops' = Append(ops, x)
Lags(g, n, w) == \E m \in Ns : d.pos[<<g, n, w>>] < d.pos[<<g, m, w>>]
Pick(q) == q[RandomElement(1..Len(q))]
NextMode ==
  mode' = CASE mode = "run" -> Pick(<<"run", "run", "run", "run", "run", "sync", "sync", "odd">>)
            [] mode = "odd" -> Pick(<<"run", "sync">>)
            [] mode = "sync" -> IF Consistent(d') THEN Pick(<<"report", "report", "report", "run">>) ELSE Pick(<<"sync", "sync", "sync", "sync", "sync", "sync", "sync", "report">>)
            [] mode = "report" -> IF d'.cur # "" THEN Pick(<<"report", "report", "report", "report", "report", "report", "odd">>) ELSE Pick(<<"run", "finish", "finish">>)
            [] mode = "finish" -> Pick(<<"run", "run", "restore", "restore", "report">>)
            [] mode = "restore" -> Pick(<<"run", "run", "run", "report">>)
Reqs(S) == \E p \in S : Request(p[1], p[2], p[3]) /\ Log(<<"req", p[1], p[2], p[3]>>)
Reports(S) == \E p \in S : Report(p[1], p[2]) /\ Log(<<"report", p[1], p[2]>>)
All == Gs \X Ns \X Ws
Tick == UNCHANGED <<vars, ops>>
SimNext ==
  /\ \/ mode \in {"run", "odd"} /\ Reqs(All)
     \/ mode \in {"run", "odd"} /\ Feedback /\ Log(<<"fb">>)
     \/ mode = "sync" /\ Reqs({p \in All : Lags(p[1], p[2], p[3])})
     \/ mode = "report" /\ Reports(GN(d) \ Reported(d))
     \/ mode = "odd" /\ Reports(GN(d))
     \/ mode \in {"finish", "odd"} /\ Complete /\ Log(<<"await">>)
     \/ mode \in {"restore", "odd"} /\ Restore
        /\ \E x \in Range(disk) : x.id \in d.done /\ d' = RestoreApply(d, [id |-> x.id, res |-> "ok"]) /\ Log(<<"restore", x.num>>)
     \/ mode # "run" /\ Tick
  /\ NextMode
SimSpec == SimInit /\ [][SimNext]_<<vars, ops, mode>>
Emit == Len(ops) >= Depth => PrintT("BEHAVIOUR " \o ToJson(ops)) /\ FALSE
=============================================================================
