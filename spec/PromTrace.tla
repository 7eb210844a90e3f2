------------------------------ MODULE PromTrace ------------------------------
(* Is a trace recorded from real registries and the Prometheus publisher a   *)
(* behaviour of Prometheus?                                                  *)
EXTENDS Prometheus, Json, IOUtils

CONSTANT Part      \* "text": the form of what is written; "values": its content
Traces == ndJsonDeserialize(IOEnv.TRACES)
Explain == "EXPLAIN" \in DOMAIN IOEnv
VARIABLES tid, l

TraceInit == tid \in 1..Len(Traces) /\ l = 2 /\ Init0(Traces[tid][1].srcs) /\ moved = FALSE
Factors(list) == [s \in {list[i][1] : i \in DOMAIN list} |-> list[CHOOSE i \in DOMAIN list : list[i][1] = s][2]]

\* a recorded reading s of a metric whose reading, were time standing still, is e
Timed == {"e1", "e2", "e3", "m1", "m2", "m3", "m4", "m5", "t1", "t2", "t3", "t4"}
ReadingIs(s, e, type) ==
    /\ s.k = e.k
    /\ e.k \in {"hist", "timer"} => s.cnt = e.cnt /\ s.items = e.items
    /\ (e.k \in {"cum", "avg"} /\ ~(moved /\ type \in Timed)) => s.v = e.v
    /\ (e.k \in {"meter", "timer"} /\ ~moved) => (IF e.k = "meter" THEN s.v ELSE s.mean) = e.v /\ \A w \in DOMAIN s.rates : s.rates[w] = e.v
    /\ e.k \in {"meter", "timer"} => {s.windows[w] : w \in DOMAIN s.windows} = Windows(type) /\ Len(s.windows) = Cardinality(Windows(type))
SameOpts(o, e) == /\ o.value = e.value /\ o.meter = e.meter
                  /\ [o.hist EXCEPT !.q = {@[x] : x \in DOMAIN @}] = e.hist
                  /\ [o.timer EXCEPT !.q = {@[x] : x \in DOMAIN @}] = e.timer
\* a recorded dump is the registry
DumpIs(out, e) ==
    /\ Len(out) = Cardinality(DOMAIN e) /\ {out[x].p : x \in DOMAIN out} = DOMAIN e
    /\ \A x \in DOMAIN out :
          LET f == e[out[x].p] IN
          /\ out[x].type = f.type /\ SameOpts(out[x].opts, f.opts)
          /\ Len(out[x].entries) = Cardinality(DOMAIN f.tags)
          /\ {TagsOf(out[x].entries[y].t) : y \in DOMAIN out[x].entries} = DOMAIN f.tags
          /\ \A y \in DOMAIN out[x].entries : ReadingIs(out[x].entries[y].snap, f.tags[TagsOf(out[x].entries[y].t)], f.type)
\* the dump as paths and tag sets, with the options of the specification
Content(out, e) ==
    [p \in DOMAIN e |->
        LET f == out[CHOOSE x \in DOMAIN out : out[x].p = p] IN
        [type |-> e[p].type, opts |-> e[p].opts,
         tags |-> [t \in DOMAIN e[p].tags |-> f.entries[CHOOSE y \in DOMAIN f.entries : TagsOf(f.entries[y].t) = t].snap]]]

\* Reading an average after an interval has passed closes the interval, and only then does a
\* further reading at the same moment report the same: once time has passed, publications are
\* recorded between two readings, and the first of them closes the intervals.
Unchanged(a, b) ==
    IF ~moved THEN a = b
    ELSE \A p \in DOMAIN a : a[p].type \in Timed \/ a[p] = b[p]

PublicationIs(Ev, e) ==
    LET entries == Content(Ev.after, e) IN
    IF Part = "text"
    THEN Ev.whole /\ TextIsRight(Ev.lines, entries)
    ELSE /\ ValuesAreRight(Ev.lines, entries, Factors(Traces[tid][1].factors))
         /\ ("before" \in DOMAIN Ev => DumpIs(Ev.before, e) /\ Unchanged(Content(Ev.before, e), entries))

MatchesOf(Ev) ==
    CASE Ev.op = "publish" -> DumpIs(Ev.after, ret') /\ PublicationIs(Ev, ret')
      [] Ev.op \in {"get", "reg"} -> [f \in (DOMAIN Ev \cap {"res", "id", "ex", "want"}) \ (IF Ev.op = "reg" THEN {"id"} ELSE {}) |-> Ev[f]] = ret'
      [] Ev.op = "make" -> Ev.id = ret'.id
      [] OTHER -> TRUE

TraceNext ==
    /\ l <= Len(Traces[tid])
    /\ LET Ev == Traces[tid][l] IN PDo(Ev) /\ MatchesOf(Ev) = TRUE     \* one value, not one step per witness
    /\ l' = l + 1
    /\ tid' = tid
    /\ (l' > Len(Traces[tid]) => PrintT(<<"ACC", tid>>))

Progress == Explain => PrintT(<<"AT", l>>)
=============================================================================
