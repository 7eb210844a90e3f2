----------------------------- MODULE RatesTrace -----------------------------
(* Is a trace recorded from real averages, meters and timers a behaviour   *)
(* of Rates?                                                               *)
EXTENDS Rates, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
Explain == "EXPLAIN" \in DOMAIN IOEnv
VARIABLES tid, l

TraceInit ==
    /\ tid \in 1..Len(Traces)
    /\ l = 2
    /\ LET c == Traces[tid][1] IN
       InitWith(c.kind, c.ival, c.per, [w \in 1..Len(c.ratio) |-> Coef(c.ratio[w][1], c.ratio[w][2])], c.cap)

Slack(m) == Add(Mul(m, Pow2(0 - Traces[tid][1].slack)), Pow2(-1000))

MatchesOf(Ev) ==
    CASE Ev.op = "read" -> Near(Ev.val, ret'[Ev.w].r, Slack(ret'[Ev.w].m))
      [] Ev.op = "snap" ->
            \* exactly one rate per window
            /\ Len(Ev.rates) = Cardinality(Windows)
            /\ \A w \in Windows : Near(Ev.rates[w], ret'[w].r, Slack(ret'[w].m))
            /\ (kind # "ewma" => IsMean(obj[Ev.h], Ev.mean) /\ Ev.keys = Traces[tid][1].windows)
            /\ (kind = "timer" =>
                  /\ Ev.count = obj[Ev.h].count /\ Ev.cnt2 = obj[Ev.h].count
                  /\ Ev.samples = Sorted(obj[Ev.h].items))
      [] Ev.op = "time" ->
            /\ Ev.calls = 1
            /\ Ev.threw = Ev.throws
            /\ (~Ev.throws => Ev.result = Ev.expect)
      [] OTHER -> TRUE

TraceNext ==
    /\ l <= Len(Traces[tid])
    /\ LET Ev == Traces[tid][l] IN Do(Ev) /\ MatchesOf(Ev)
    /\ l' = l + 1
    /\ tid' = tid
    /\ (l' > Len(Traces[tid]) => PrintT(<<"ACC", tid>>))

Progress == Explain => PrintT(<<"AT", l>>)
=============================================================================
