----------------------------- MODULE TokensModel ----------------------------
(* Tokenizing as built, on demand or in the background: a thread that       *)
(* tokenizes batches and a consumer, sharing a buffer under a lock with a   *)
(* condition. Samples are their numbers of tokens; sequences are described  *)
(* by where they start. All schedules; failures at any sample.              *)
EXTENDS Tokens, TLC
CONSTANTS MaxSamples, MaxTokens, MaxBatch, MaxL, Failures

VARIABLES mode, sizes, batch, L, overlap, atleast, fail,   \* fail: sample that cannot be read (0: none)
          pos, len, idx, eos, exc, yielded, out,           \* buffer: len tokens, idx: next start
          lock, waiting, bg, got, last, cons
cfg == <<mode, sizes, batch, L, overlap, atleast, fail>>
vars == <<mode, sizes, batch, L, overlap, atleast, fail, pos, len, idx, eos, exc, yielded, out, lock, waiting, bg, got, last, cons>>

RECURSIVE Sum(_)
Sum(q) == IF q = <<>> THEN 0 ELSE Head(q) + Sum(Tail(q))
Init ==
  /\ mode \in {"demand", "background"}
  /\ sizes \in UNION {[1..k -> 0..MaxTokens] : k \in 0..MaxSamples}
  /\ batch \in 1..MaxBatch /\ L \in 1..MaxL /\ overlap \in BOOLEAN /\ atleast \in BOOLEAN
  /\ fail \in IF Failures THEN 0..Len(sizes) ELSE {0}
  /\ pos = 0 /\ len = 0 /\ idx = 0 /\ eos = FALSE /\ exc = FALSE /\ yielded = 0 /\ out = <<>>
  /\ lock = "free" /\ waiting = FALSE /\ bg = IF mode = "background" THEN "loop" ELSE "none"
  /\ got = 0 /\ last = FALSE /\ cons = "idle"

(* a batch of samples from here: tokens, next position, end seen, failed    *)
Taken == IF pos + batch > Len(sizes) THEN Len(sizes) - pos ELSE batch
Hits == fail > pos /\ fail <= pos + Taken
Tokens_ == Sum(SubSeq(sizes, pos + 1, pos + Taken))

(* background thread *)
Loop == /\ bg = "loop"
        /\ IF eos THEN bg' = "ended" /\ UNCHANGED <<pos, got, last>>
           ELSE IF Hits THEN bg' = "fail" /\ UNCHANGED <<pos, got, last>>
           ELSE /\ got' = IF Taken = 0 THEN -1 ELSE Tokens_
                /\ last' = (pos + batch > Len(sizes)) /\ pos' = pos + Taken /\ bg' = "lock"
        /\ UNCHANGED <<cfg, len, idx, eos, exc, yielded, out, lock, waiting, cons>>
BgLock == /\ bg \in {"lock", "fail"} /\ lock = "free" /\ lock' = "bg" /\ bg' = IF bg = "fail" THEN "failing" ELSE "extend"
          /\ UNCHANGED <<cfg, pos, len, idx, eos, exc, yielded, out, waiting, got, last, cons>>
Extend == /\ bg = "extend"
          /\ len' = IF got > 0 THEN len + got ELSE len
          /\ eos' = (eos \/ got = -1 \/ last)
          /\ waiting' = FALSE /\ lock' = "free" /\ bg' = "loop"
          /\ UNCHANGED <<cfg, pos, idx, exc, yielded, out, got, last, cons>>
Failing == /\ bg = "failing" /\ exc' = TRUE /\ eos' = TRUE /\ waiting' = FALSE /\ lock' = "free" /\ bg' = "ended"
           /\ UNCHANGED <<cfg, pos, len, idx, yielded, out, got, last, cons>>

(* consumer *)
Give == /\ out' = Append(out, idx) /\ idx' = idx + Step(L, overlap) /\ yielded' = yielded + 1
Pad == yielded = 0 /\ len - idx > 0 /\ atleast
Ask == /\ cons = "idle" /\ cons' = "want" /\ UNCHANGED <<cfg, pos, len, idx, eos, exc, yielded, out, lock, waiting, bg, got, last>>
Demand ==
  /\ mode = "demand" /\ cons = "want"
  /\ IF len - idx >= L + 1 THEN Give /\ cons' = "idle" /\ UNCHANGED <<pos, len, eos>>
     ELSE IF ~eos THEN IF Hits THEN cons' = "error" /\ UNCHANGED <<pos, len, eos, idx, out, yielded>>
                       ELSE /\ len' = len + Tokens_ /\ pos' = pos + Taken /\ eos' = (pos + batch > Len(sizes))
                            /\ UNCHANGED <<cons, idx, out, yielded>>
     ELSE IF Pad THEN Give /\ cons' = "idle" /\ UNCHANGED <<pos, len, eos>>
     ELSE cons' = "end" /\ UNCHANGED <<pos, len, eos, idx, out, yielded>>
  /\ UNCHANGED <<cfg, exc, lock, waiting, bg, got, last>>
ConsLock == /\ mode = "background" /\ cons = "want" /\ ~waiting /\ lock = "free" /\ lock' = "cons" /\ cons' = "look"
            /\ UNCHANGED <<cfg, pos, len, idx, eos, exc, yielded, out, waiting, bg, got, last>>
Look == /\ cons = "look"
        /\ IF len - idx >= L + 1 THEN Give /\ cons' = "idle" /\ UNCHANGED waiting
           ELSE IF exc THEN cons' = "error" /\ UNCHANGED <<idx, out, yielded, waiting>>
           ELSE IF eos THEN IF Pad THEN Give /\ cons' = "idle" /\ UNCHANGED waiting
                            ELSE cons' = "end" /\ UNCHANGED <<idx, out, yielded, waiting>>
           ELSE waiting' = TRUE /\ cons' = "want" /\ UNCHANGED <<idx, out, yielded>>
        /\ lock' = "free"
        /\ UNCHANGED <<cfg, pos, len, eos, exc, bg, got, last>>

Next == Loop \/ BgLock \/ Extend \/ Failing \/ Ask \/ Demand \/ ConsLock \/ Look
Spec == Init /\ [][Next]_vars /\ WF_vars(Loop \/ BgLock \/ Extend \/ Failing) /\ SF_vars(Ask \/ Demand \/ ConsLock \/ Look)

N == Sum(sizes)
Before == ((fail - 1) \div batch) * batch      \* samples in batches before the one that fails
Want == IF fail = 0 THEN Count(N, L, overlap, atleast) ELSE Full(Sum(SubSeq(sizes, 1, Before)), L, overlap)
Sequences_ == \A i \in DOMAIN out : out[i] = StartOf(i, L, overlap)
AllAtEnd == cons = "end" => fail = 0 /\ Len(out) = Want
ErrorRaised == cons = "error" => fail # 0 /\ Len(out) = Want
Ends == <>(cons \in {"end", "error"})
=============================================================================
