---------------------------- MODULE RegistryTrace ----------------------------
(* Is a trace recorded from real registries a behaviour of Registry?        *)
EXTENDS Registry, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
Explain == "EXPLAIN" \in DOMAIN IOEnv
VARIABLES tid, l

TraceInit == tid \in 1..Len(Traces) /\ l = 2 /\ Init0(Traces[tid][1].srcs)


Eps(v) == Add(Mul(Abs(v), Pow2(-44)), Pow2(-1000))
\* a recorded number x is v divided by n
Is(x, v, n, mag) == IF n = 1 THEN x = v ELSE Near(MulInt(x, n), v, Eps(mag))

\* s: a recorded snapshot, e: the expected one (over: divisor of averages)
SnapIs(s, e, over) ==
    LET mag == IF over = 1 THEN Zero ELSE e.mag IN
    /\ s.k = e.k
    /\ e.k \in {"cum", "avg"} => Is(s.v, e.v, over, mag)
    /\ e.k \in {"meter", "timer"} =>
          /\ (e.k = "meter" => Is(s.v, e.v, over, mag)) /\ (e.k = "timer" => Is(s.mean, e.v, over, mag))
          /\ Len(s.rates) > 0
          /\ \A w \in DOMAIN s.rates : Is(s.rates[w], e.v, over, mag)
          /\ Cardinality({s.windows[w] : w \in DOMAIN s.windows}) = Len(s.windows)
    /\ e.k \in {"hist", "timer"} => s.cnt = e.cnt /\ s.items = e.items

OptsAre(o, e) == /\ o.value = e.value /\ o.meter = e.meter
                 /\ [o.hist EXCEPT !.q = {@[x] : x \in DOMAIN @}] = e.hist
                 /\ [o.timer EXCEPT !.q = {@[x] : x \in DOMAIN @}] = e.timer
                 /\ Cardinality({o.hist.q[x] : x \in DOMAIN o.hist.q}) = Len(o.hist.q)
                 /\ Cardinality({o.timer.q[x] : x \in DOMAIN o.timer.q}) = Len(o.timer.q)

\* what a handler that only knows histograms and meters gets to see
Partial(e) == CASE e.k = "timer" -> {"hist", "meter"} [] e.k \in {"hist", "meter"} -> {e.k} [] OTHER -> {}
EntriesAre(out, e, mode) ==
    IF mode = "full"
    THEN /\ Len(out) = Cardinality(DOMAIN e.tags)
         /\ {TagsOf(out[x].t) : x \in DOMAIN out} = DOMAIN e.tags
         /\ \A x \in DOMAIN out : SnapIs(out[x].snap, e.tags[TagsOf(out[x].t)], 1)
    ELSE LET want == UNION {{<<t, k>> : k \in Partial(e.tags[t])} : t \in DOMAIN e.tags} IN
         /\ Len(out) = Cardinality(want)
         /\ {<<TagsOf(out[x].t), out[x].snap.k>> : x \in DOMAIN out} = want
         /\ \A x \in DOMAIN out : SnapIs(out[x].snap, [e.tags[TagsOf(out[x].t)] EXCEPT !.k = out[x].snap.k], 1)

VisitIs(out, e, mode) ==
    /\ Len(out) = Cardinality(DOMAIN e)
    /\ {out[x].p : x \in DOMAIN out} = DOMAIN e
    /\ \A x \in DOMAIN out :
          /\ out[x].type = e[out[x].p].type
          /\ OptsAre(out[x].opts, e[out[x].p].opts)
          /\ EntriesAre(out[x].entries, e[out[x].p], mode)

MatchesOf(Ev) ==
    CASE Ev.op \in {"get", "reg"} -> [f \in (DOMAIN Ev \cap {"res", "id", "ex", "want"}) \ (IF Ev.op = "reg" THEN {"id"} ELSE {}) |-> Ev[f]] = ret'
      [] Ev.op = "make" -> Ev.id = ret'.id
      [] Ev.op = "snap" -> SnapIs(Ev.snap, ret', 1)
      [] Ev.op = "visit" -> VisitIs(Ev.out, ret', Ev.mode)
      [] Ev.op = "vthrow" -> Ev.calls = ret'.calls /\ Ev.caught = ret'.caught
      [] Ev.op = "crowd" -> [f \in DOMAIN ret' |-> Ev[f]] = ret'
      [] Ev.op = "agg" -> Len(Ev.out) = ret'.calls /\ (ret'.calls = 1 => SnapIs(Ev.out[1], ret'.snap, ret'.snap.over))
      [] Ev.op = "ropts" -> OptsAre(Ev.out, ret')
      [] Ev.op = "eff" -> Len(Ev.out) = ret'.calls /\ (ret'.calls = 1 => OptsAre(Ev.out[1], ret'.opts))
      [] Ev.op \in {"data", "datafor"} -> Ev.id = ret'.id /\ Ev.got = ret'.arg
      [] Ev.op \in {"has", "hasm"} -> Ev.res = ret'.res
      [] Ev.op = "mtype" -> (Ev.res # "") = ret'.res
      [] OTHER -> TRUE

TraceNext ==
    /\ l <= Len(Traces[tid])
    /\ LET Ev == Traces[tid][l] IN Do(Ev) /\ MatchesOf(Ev)
    /\ l' = l + 1
    /\ tid' = tid
    /\ (l' > Len(Traces[tid]) => PrintT(<<"ACC", tid>>))

Progress == Explain => PrintT(<<"AT", l>>)
=============================================================================
