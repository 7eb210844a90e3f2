------------------------------ MODULE Registry ------------------------------
(***************************************************************************)
(* Metric registries: paths, types, tag sets, shared instances, visits,    *)
(* aggregation, publish options and publisher data                         *)
(* (P02, P03, P04, P05, P06, P20, P21).                                    *)
(*                                                                         *)
(* Instances are numbered in order of creation; so are data objects.  The  *)
(* clock stands still, so an average reports the sum of its marks.         *)
(***************************************************************************)
EXTENDS Dyadic, FiniteSets, TLC

CONSTANT Regs
VARIABLES
    reg,     \* reg[r].paths[p] = [type, tags, opts, data];  reg[r].opts, reg[r].data
    inst,    \* inst[i] = [type, n, sum, items, src]
    src,     \* values of the variables gauges refer to
    ndata,   \* data objects created so far
    ret
vars == <<reg, inst, src, ndata, ret>>

-----------------------------------------------------------------------------
\* the metric types: canonical name, kind, aggregation, capacity of the reservoir
T(c, k, a, n) == [canon |-> c, kind |-> k, agg |-> a, cap |-> n]
TypeTable == [
    c64 |-> T("c64", "counter", "cum", 0), c32 |-> T("c32", "counter", "cum", 0),
    e1 |-> T("e1", "ewma", "avg", 0), e2 |-> T("e2", "ewma", "avg", 0), e3 |-> T("e3", "ewma", "avg", 0),
    g |-> T("g", "gauge", "avg", 0), gi |-> T("gi", "gauge", "avg", 0),
    gs |-> T("gs", "gauge", "cum", 0), gis |-> T("gis", "gauge", "cum", 0),
    gf |-> T("gf", "source", "avg", 0), gfs |-> T("gfs", "source", "cum", 0),
    gp |-> T("gp", "source", "avg", 0), gps |-> T("gps", "source", "cum", 0),
    gr |-> T("gr", "source", "avg", 0), grs |-> T("grs", "source", "cum", 0),
    hu |-> T("hu", "hist", "hist", 1024), hl |-> T("hl", "hist", "hist", 4), hw |-> T("hw", "hist", "hist", 5),
    m1 |-> T("m1", "meter", "meter", 0), m1b |-> T("m1", "meter", "meter", 0),
    m2 |-> T("m2", "meter", "meter", 0), m3 |-> T("m3", "meter", "meter", 0),
    t1 |-> T("t1", "timer", "timer", 1024), t2 |-> T("t2", "timer", "timer", 4), t3 |-> T("t3", "timer", "timer", 1024),
    m4 |-> T("m4", "meter", "meter", 0), m5 |-> T("m5", "meter", "meter", 0), t4 |-> T("t4", "timer", "timer", 7)]
Canon(t) == TypeTable[t].canon
Kind(t) == TypeTable[t].kind

LastOf(s, n) == IF Len(s) <= n THEN s ELSE SubSeq(s, Len(s) - n + 1, Len(s))
Without(s, x) == SelectSeq(s, LAMBDA y : y # x)
NoTags == {}
None == [none |-> TRUE]

\* a metric path is the list of its non-empty components; a tag set is a set of key/value pairs
PathOf(comps) == Without(comps, "-")
TagsOf(list) == {list[i] : i \in DOMAIN list}

-----------------------------------------------------------------------------
\* instances
NewInst(ty, init) ==
    [type |-> Canon(ty), n |-> 0, items |-> <<>>, src |-> IF Kind(ty) = "source" THEN init ELSE 0,
     sum |-> IF Kind(ty) \in {"counter", "gauge"} THEN init ELSE Zero]
Updated(i, amt) ==
    CASE Kind(i.type) \in {"counter", "ewma", "meter"} -> [i EXCEPT !.sum = Add(@, amt), !.n = @ + 1]
      [] Kind(i.type) = "gauge" -> [i EXCEPT !.sum = amt, !.n = @ + 1]
      [] Kind(i.type) = "hist" -> [i EXCEPT !.items = LastOf(Append(@, amt), TypeTable[i.type].cap), !.n = @ + 1]
      [] Kind(i.type) = "timer" -> [i EXCEPT !.items = LastOf(Append(@, amt), TypeTable[i.type].cap),
                                             !.n = @ + 1, !.sum = Add(@, FromInt(1))]
      [] OTHER -> i   \* a gauge reading a variable has no value of its own

Sorted(items) == SortSeq(items, LAMBDA a, b : Lt(a, b))
Snap(i) ==
    LET v == IF Kind(i.type) = "source" THEN src[i.src] ELSE i.sum
    IN  [k |-> TypeTable[i.type].agg, v |-> v, cnt |-> i.n, items |-> Sorted(i.items)]

\* aggregation of a non-empty sequence of snapshots of one kind
RECURSIVE SumOf(_, _), MagOf(_, _), CountOf(_, _), ItemsOf(_, _)
SumOf(s, n) == IF n = 0 THEN Zero ELSE Add(s[n].v, SumOf(s, n - 1))
MagOf(s, n) == IF n = 0 THEN Zero ELSE Add(Abs(s[n].v), MagOf(s, n - 1))
CountOf(s, n) == IF n = 0 THEN 0 ELSE s[n].cnt + CountOf(s, n - 1)
ItemsOf(s, n) == IF n = 0 THEN <<>> ELSE s[n].items \o ItemsOf(s, n - 1)
\* v is kept as the sum of the parts, over says by how much it is to be divided;
\* mag is the magnitude against which rounding is judged
Aggregate(s) ==
    [k |-> s[1].k, v |-> SumOf(s, Len(s)), mag |-> MagOf(s, Len(s)), over |-> IF s[1].k = "cum" THEN 1 ELSE Len(s),
     cnt |-> CountOf(s, Len(s)), items |-> Sorted(ItemsOf(s, Len(s)))]

-----------------------------------------------------------------------------
\* publish options: every field not given has its default
DefaultOpts == [
    value |-> [sc |-> "-"],
    meter |-> [sc |-> "-", mean |-> TRUE],
    hist  |-> [sc |-> "-", q |-> {50000, 90000, 99000}, cnt |-> TRUE, dist |-> FALSE],
    timer |-> [sc |-> "-", q |-> {50000, 90000, 99000}, cnt |-> TRUE, dist |-> FALSE, mean |-> TRUE, rates |-> TRUE]]
Filled(given) ==
    [part \in DOMAIN DefaultOpts |->
        [f \in DOMAIN DefaultOpts[part] |->
            IF part \in DOMAIN given /\ f \in DOMAIN given[part]
            THEN (IF f = "q" THEN {given[part].q[x] : x \in DOMAIN given[part].q} ELSE given[part][f])
            ELSE DefaultOpts[part][f]]]
Effective(r, p) ==
    IF reg[r].paths[p].opts # None THEN reg[r].paths[p].opts
    ELSE IF reg[r].opts # None THEN reg[r].opts ELSE DefaultOpts

-----------------------------------------------------------------------------
NoFun == [x \in {} |-> 0]
EmptyReg == [paths |-> NoFun, opts |-> None, data |-> NoFun]
Init0(nsrc) ==
    /\ reg = [r \in Regs |-> EmptyReg]
    /\ inst = <<>> /\ src = [s \in 1..nsrc |-> Zero] /\ ndata = 0
    /\ ret = [res |-> "init"]

Has(r, p) == p \in DOMAIN reg[r].paths
Family(ty) == [type |-> Canon(ty), tags |-> NoFun, opts |-> None, data |-> NoFun]
Put(f, k, v) == (k :> v) @@ f
Mismatch(r, p, ty) == Has(r, p) /\ reg[r].paths[p].type # Canon(ty)
Refused(r, p, ty) == [res |-> "throw", ex |-> reg[r].paths[p].type, want |-> Canon(ty)]

\* find or create
Get(r, p, t, ty, init) ==
    IF Mismatch(r, p, ty)
    THEN /\ ret' = Refused(r, p, ty) /\ UNCHANGED <<reg, inst, src, ndata>>
    ELSE LET fam == IF Has(r, p) THEN reg[r].paths[p] ELSE Family(ty) IN
         IF t \in DOMAIN fam.tags
         THEN ret' = [res |-> "ok", id |-> fam.tags[t]] /\ UNCHANGED <<reg, inst, src, ndata>>
         ELSE /\ inst' = Append(inst, NewInst(ty, init))
              /\ reg' = [reg EXCEPT ![r].paths = Put(@, p, [fam EXCEPT !.tags = Put(@, t, Len(inst) + 1)])]
              /\ ret' = [res |-> "ok", id |-> Len(inst) + 1]
              /\ UNCHANGED <<src, ndata>>

Make(ty, init) == /\ inst' = Append(inst, NewInst(ty, init))
                  /\ ret' = [res |-> "ok", id |-> Len(inst) + 1]
                  /\ UNCHANGED <<reg, src, ndata>>

\* register an existing metric (0: a null one); adopts it only if nothing is there
Register(r, p, t, i) ==
    IF i = 0 THEN ret' = [res |-> "no"] /\ UNCHANGED <<reg, inst, src, ndata>>
    ELSE LET ty == inst[i].type IN
    IF Mismatch(r, p, ty)
    THEN ret' = Refused(r, p, ty) /\ UNCHANGED <<reg, inst, src, ndata>>
    ELSE LET fam == IF Has(r, p) THEN reg[r].paths[p] ELSE Family(ty) IN
         IF t \in DOMAIN fam.tags
         THEN ret' = [res |-> "no"] /\ UNCHANGED <<reg, inst, src, ndata>>
         ELSE /\ reg' = [reg EXCEPT ![r].paths = Put(@, p, [fam EXCEPT !.tags = Put(@, t, i)])]
              /\ ret' = [res |-> "ok"]
              /\ UNCHANGED <<inst, src, ndata>>

Update(i, amt) == /\ inst' = [inst EXCEPT ![i] = Updated(@, amt)]
                  /\ ret' = [res |-> "ok"] /\ UNCHANGED <<reg, src, ndata>>
SetSource(s, v) == /\ src' = [src EXCEPT ![s] = v]
                   /\ ret' = [res |-> "ok"] /\ UNCHANGED <<reg, inst, ndata>>

\* readings
Same == UNCHANGED <<reg, inst, src, ndata>>
ReadInst(i) == ret' = Snap(inst[i]) /\ Same
FamilyOut(r, p) == [type |-> reg[r].paths[p].type,
                    opts |-> Effective(r, p),
                    tags |-> [t \in DOMAIN reg[r].paths[p].tags |-> Snap(inst[reg[r].paths[p].tags[t]])]]
Visit(r, only) ==   \* only the paths in the set
    /\ ret' = [p \in DOMAIN reg[r].paths \cap only |-> FamilyOut(r, p)]
    /\ Same
\* a visit whose handler throws at its k-th call made at most k calls
Total(r) == LET RECURSIVE Go(_)
                Go(S) == IF S = {} THEN 0
                         ELSE LET p == CHOOSE x \in S : TRUE IN Cardinality(DOMAIN reg[r].paths[p].tags) + Go(S \ {p})
            IN  Go(DOMAIN reg[r].paths)
VisitThrow(r, k, level) ==
    LET n == IF level = "path" THEN Cardinality(DOMAIN reg[r].paths) ELSE Total(r)
    IN  ret' = [calls |-> IF k <= n THEN k ELSE n, caught |-> k <= n] /\ Same
\* a registry of its own with n tag sets, each counted once: visited, aggregated, visited as a whole
Crowd(n) == ret' = [visited |-> n, distinct |-> n, sum |-> n] /\ Same
RECURSIVE Listing(_)
Listing(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o Listing(S \ {x})
AggregateAt(r, p) ==
    /\ ret' = IF ~Has(r, p) THEN [calls |-> 0]
              ELSE IF DOMAIN reg[r].paths[p].tags = {} THEN [calls |-> 0]
              ELSE LET f == reg[r].paths[p].tags
                       order == Listing(DOMAIN f)
                   IN  [calls |-> 1, snap |-> Aggregate([x \in DOMAIN order |-> Snap(inst[f[order[x]]])])]
    /\ Same

-----------------------------------------------------------------------------
SetOpts(r, given) == /\ reg' = [reg EXCEPT ![r].opts = Filled(given)]
                     /\ ret' = [res |-> "ok"] /\ UNCHANGED <<inst, src, ndata>>
SetOptsFor(r, p, given) ==
    /\ reg' = IF Has(r, p) THEN [reg EXCEPT ![r].paths[p].opts = Filled(given)] ELSE reg
    /\ ret' = [res |-> "ok"] /\ UNCHANGED <<inst, src, ndata>>
ReadOpts(r) == ret' = (IF reg[r].opts # None THEN reg[r].opts ELSE DefaultOpts) /\ Same
ReadEffective(r, p) == ret' = (IF Has(r, p) THEN [calls |-> 1, opts |-> Effective(r, p)] ELSE [calls |-> 0]) /\ Same

\* publisher data: created on first request; a constructor that throws ("bad") leaves nothing behind
Failed == [id |-> 0, arg |-> "throw"]
Data(r, t, arg) ==
    IF t \in DOMAIN reg[r].data
    THEN ret' = reg[r].data[t] /\ Same
    ELSE IF arg = "bad" THEN ret' = Failed /\ Same
    ELSE LET d == [id |-> ndata + 1, arg |-> arg] IN
         /\ reg' = [reg EXCEPT ![r].data = Put(@, t, d)] /\ ndata' = ndata + 1
         /\ ret' = d /\ UNCHANGED <<inst, src>>
DataFor(r, p, t, arg) ==
    IF ~Has(r, p) THEN ret' = [id |-> 0, arg |-> ""] /\ Same
    ELSE IF t \in DOMAIN reg[r].paths[p].data
    THEN ret' = reg[r].paths[p].data[t] /\ Same
    ELSE IF arg = "bad" THEN ret' = Failed /\ Same
    ELSE LET d == [id |-> ndata + 1, arg |-> arg] IN
         /\ reg' = [reg EXCEPT ![r].paths[p].data = Put(@, t, d)] /\ ndata' = ndata + 1
         /\ ret' = d /\ UNCHANGED <<inst, src>>
HasData(r, p, t) == ret' = [res |-> Has(r, p) /\ t \in DOMAIN reg[r].paths[p].data] /\ Same
HasMetric(r, p) == ret' = [res |-> Has(r, p)] /\ Same

Do(c) ==
    CASE c.op = "get"     -> Get(c.r, PathOf(c.p), TagsOf(c.t), c.ty, c.init)
      [] c.op = "make"    -> Make(c.ty, c.init)
      [] c.op = "reg"     -> Register(c.r, PathOf(c.p), TagsOf(c.t), c.id)
      [] c.op = "upd"     -> Update(c.id, c.amt)
      [] c.op = "setsrc"  -> SetSource(c.s, c.v)
      [] c.op = "snap"    -> ReadInst(c.id)
      [] c.op = "visit"   -> Visit(c.r, IF c.how = "all" THEN DOMAIN reg[c.r].paths ELSE {PathOf(c.p)})
      [] c.op = "vthrow"  -> VisitThrow(c.r, c.k, c.level)
      [] c.op = "crowd"   -> Crowd(c.n)
      [] c.op = "agg"     -> AggregateAt(c.r, PathOf(c.p))
      [] c.op = "opts"    -> SetOpts(c.r, c.given)
      [] c.op = "optsfor" -> SetOptsFor(c.r, PathOf(c.p), c.given)
      [] c.op = "ropts"   -> ReadOpts(c.r)
      [] c.op = "eff"     -> ReadEffective(c.r, PathOf(c.p))
      [] c.op = "data"    -> Data(c.r, c.ty, c.arg)
      [] c.op = "datafor" -> DataFor(c.r, PathOf(c.p), c.ty, c.arg)
      [] c.op = "has"     -> HasData(c.r, PathOf(c.p), c.ty)
      [] c.op \in {"hasm", "mtype"} -> HasMetric(c.r, PathOf(c.p))
=============================================================================
