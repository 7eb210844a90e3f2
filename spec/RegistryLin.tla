---------------------------- MODULE RegistryLin ----------------------------
(***************************************************************************)
(* Histories of real threads using real registries (P02-P05, P21): some    *)
(* order of the calls that keeps their precedence (a before b exactly if   *)
(* a.e <= b.s) is a behaviour of Registry.                                 *)
(*                                                                         *)
(* A lookup that creates both a family and its first instance may become   *)
(* visible in two steps: Ensure, the family alone, then the call itself.   *)
(* What a visit reports is judged piece by piece: "famp" says whether it   *)
(* reported a path, "slot" whether it reported a tag set there; each was   *)
(* true at some moment during the visit.                                   *)
(* Instances and data are known by the labels the recorder gave them;      *)
(* idmap and dmap relate the labels to the names the specification chose.  *)
(***************************************************************************)
EXTENDS RegistryTrace

VARIABLES done, idmap, dmap
H == Traces[tid]

LinInit == TraceInit /\ done = {1} /\ idmap = <<>> /\ dmap = <<>>
Ready(i) == i \notin done /\ \A j \in (1..Len(H)) \ done : j = i \/ H[j].e > H[i].s

\* label lab of the recorder is name id of the specification
Bind(map, lab, id) ==
    IF lab = 0 \/ id = 0 THEN lab = id /\ map' = map
    ELSE IF lab \in DOMAIN map THEN map[lab] = id /\ map' = map
    ELSE id \notin {map[x] : x \in DOMAIN map} /\ map' = Put(map, lab, id)
Known(lab) == lab = 0 \/ lab \in DOMAIN idmap
Named(lab) == IF lab = 0 THEN 0 ELSE idmap[lab]

Quiet == UNCHANGED <<reg, inst, src, ndata, ret>>
LinDo(c) ==
    CASE c.op = "get" ->
            /\ Do(c)
            /\ [f \in DOMAIN c \cap {"res", "ex", "want"} |-> c[f]] = [f \in DOMAIN ret' \ {"id"} |-> ret'[f]]
            /\ IF c.res = "ok" THEN Bind(idmap, c.id, ret'.id) ELSE idmap' = idmap
            /\ dmap' = dmap
      [] c.op = "make" -> Do(c) /\ Bind(idmap, c.id, ret'.id) /\ dmap' = dmap
      [] c.op = "reg" -> Known(c.id) /\ Do([c EXCEPT !.id = Named(@)]) /\ MatchesOf(c) /\ UNCHANGED <<idmap, dmap>>
      [] c.op = "upd" -> /\ IF c.skip THEN Quiet ELSE Known(c.id) /\ Do([c EXCEPT !.id = Named(@)])
                         /\ UNCHANGED <<idmap, dmap>>
      [] c.op \in {"data", "datafor"} -> Do(c) /\ c.got = ret'.arg /\ Bind(dmap, c.id, ret'.id) /\ idmap' = idmap
      [] c.op = "famp" -> /\ c.has = Has(c.r, PathOf(c.p))
                          /\ (c.has => reg[c.r].paths[PathOf(c.p)].type = c.type)
                          /\ Quiet /\ UNCHANGED <<idmap, dmap>>
      [] c.op = "slot" -> /\ c.has = (Has(c.r, PathOf(c.p)) /\ TagsOf(c.t) \in DOMAIN reg[c.r].paths[PathOf(c.p)].tags)
                          /\ Quiet /\ UNCHANGED <<idmap, dmap>>
      [] c.op = "look" ->   \* nothing twice
            /\ Cardinality({PathOf(c.out[x].p) : x \in DOMAIN c.out}) = Len(c.out)
            /\ \A x \in DOMAIN c.out : Cardinality({TagsOf(c.out[x].tags[y]) : y \in DOMAIN c.out[x].tags}) = Len(c.out[x].tags)
            /\ Quiet /\ UNCHANGED <<idmap, dmap>>
      [] c.op \in {"agg", "vthrow"} -> Quiet /\ UNCHANGED <<idmap, dmap>>
      [] OTHER -> Do(c) /\ MatchesOf(c) /\ UNCHANGED <<idmap, dmap>>

\* the family of a lookup that will succeed, or of a registration that finds the slot just taken,
\* ahead of its instance
Ensure(i) ==
    /\ Ready(i)
    /\ \/ H[i].op = "get" /\ H[i].res = "ok"
       \/ H[i].op = "reg" /\ H[i].res # "throw" /\ H[i].id # 0 /\ Known(H[i].id)
    /\ LET p == PathOf(H[i].p)
           ty == IF H[i].op = "get" THEN H[i].ty ELSE inst[Named(H[i].id)].type
       IN  /\ ~Has(H[i].r, p)
           /\ reg' = [reg EXCEPT ![H[i].r].paths = Put(@, p, Family(ty))]
    /\ UNCHANGED <<inst, src, ndata, ret, done, idmap, dmap, tid, l>>

\* A call that leaves everything as it is may be taken as soon as it fits: it hinders none of the others.
State == <<reg, inst, src, ndata, idmap, dmap>>
Fits(i) == Ready(i) /\ ENABLED (LinDo(H[i]) /\ UNCHANGED State)
Take(i) == Ready(i) /\ LinDo(H[i]) /\ done' = done \cup {i}
LinNext ==
    \/ LET still == {i \in 2..Len(H) : Fits(i)} IN
       /\ IF still # {} THEN Take(CHOOSE i \in still : \A j \in still : i <= j)
          ELSE \E i \in 2..Len(H) : Take(i)
       /\ UNCHANGED <<tid, l>>
       /\ (Cardinality(done') = Len(H) => PrintT(<<"ACC", tid>>))
    \/ \E i \in 2..Len(H) : Ensure(i)
LinProgress == Explain => PrintT(<<"AT", Cardinality(done) + 1>>)
LinView == <<tid, done, State>>
=============================================================================
