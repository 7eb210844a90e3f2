----------------------------- MODULE MCRegistry -----------------------------
(* Laws of the registry on all short histories, and generator of them.     *)
EXTENDS Registry, Json

CONSTANTS Paths, Tags, Types, Ops, MaxLen
VARIABLE cmds
allvars == <<vars, cmds>>

PathList == <<<<"61">>, <<"62">>, <<"61", "62">>, <<"-">>>>
TagList == << <<>>, <<<<"736b", "61">>>>, <<<<"736b", "62">>>>, <<<<"696b", "31">>, <<"736b", "61">>>> >>
OptList == << [none |-> TRUE], [value |-> [sc |-> "2"], timer |-> [rates |-> FALSE]], [hist |-> [cnt |-> FALSE]] >>

Cmd(o) ==
    CASE o = "get" -> {[op |-> o, r |-> r, p |-> PathList[p], t |-> TagList[t], ty |-> ty, init |-> FromInt(1)] :
                          r \in Regs, p \in Paths, t \in Tags, ty \in Types}
      [] o = "make" -> {[op |-> o, ty |-> ty, init |-> FromInt(2)] : ty \in Types}
      [] o = "reg" -> {[op |-> o, r |-> r, p |-> PathList[p], t |-> TagList[t], id |-> i] :
                          r \in Regs, p \in Paths, t \in Tags, i \in 0..Len(inst)}
      [] o = "upd" -> {[op |-> o, id |-> i, amt |-> FromInt(3)] : i \in 1..Len(inst)}
      [] o = "opts" -> {[op |-> o, r |-> r, given |-> g] : r \in Regs, g \in {OptList[x] : x \in {2, 3}}}
      [] o = "optsfor" -> {[op |-> o, r |-> r, p |-> PathList[p], given |-> g] :
                          r \in Regs, p \in Paths, g \in {OptList[x] : x \in {1, 3}}}
      [] o = "data" -> {[op |-> o, r |-> r, ty |-> ty, arg |-> ToString(Len(cmds))] : r \in Regs, ty \in {"1", "2"}}
      [] o = "datafor" -> {[op |-> o, r |-> r, p |-> PathList[p], ty |-> ty, arg |-> ToString(Len(cmds))] :
                          r \in Regs, p \in Paths, ty \in {"1", "2"}}
      [] o = "visit" -> {[op |-> o, r |-> r, how |-> "all", mode |-> "full"] : r \in Regs}

MCInit == Init0(1) /\ cmds = <<>>
MCNext == /\ Len(cmds) < MaxLen
          /\ \E o \in Ops : \E c \in Cmd(o) : Do(c) /\ cmds' = Append(cmds, c)
View == <<reg, inst, Len(cmds)>>

Slots == {<<r, p, t>> \in Regs \X {PathOf(PathList[x]) : x \in Paths} \X {TagsOf(TagList[x]) : x \in Tags} :
            Has(r, p) /\ t \in DOMAIN reg[r].paths[p].tags}
Held(s) == reg[s[1]].paths[s[2]].tags[s[3]]
Registered == {i \in 1..Len(inst) : \E x \in DOMAIN cmds : cmds[x].op = "reg" /\ cmds[x].id = i}

\* an instance sits in one slot unless it was registered again on purpose
OwnSlot == \A s, u \in Slots : (s # u /\ Held(s) = Held(u)) => Held(s) \in Registered
\* every instance has the type of its family, every family has at least one instance
Typed == /\ \A s \in Slots : inst[Held(s)].type = reg[s[1]].paths[s[2]].type
         /\ \A r \in Regs : \A p \in DOMAIN reg[r].paths : DOMAIN reg[r].paths[p].tags # {}
\* slots and types never change, refused requests change nothing, readings change nothing
Stable == [][/\ \A s \in Slots : s \in Slots' /\ Held(s)' = Held(s)
             /\ \A r \in Regs : \A p \in DOMAIN reg[r].paths : reg'[r].paths[p].type = reg[r].paths[p].type
             /\ ("res" \in DOMAIN ret' /\ ret'.res \in {"throw", "no"}) => UNCHANGED <<reg, inst>>]_allvars
\* data objects are never shared between owners or types
DataOwners == LET ids == UNION {{<<r, <<"none">>, t, reg[r].data[t].id>> : t \in DOMAIN reg[r].data} : r \in Regs}
                    \cup UNION {UNION {{<<r, p, t, reg[r].paths[p].data[t].id>> : t \in DOMAIN reg[r].paths[p].data} :
                                        p \in DOMAIN reg[r].paths} : r \in Regs}
              IN  Cardinality(ids) = Cardinality({x[4] : x \in ids}) /\ Cardinality(ids) = ndata
\* the sum over a family is the sum of its parts
AggregateLaw == \A r \in Regs : \A p \in DOMAIN reg[r].paths :
    reg[r].paths[p].type = "c64" =>
       LET f == reg[r].paths[p].tags
           o == Listing(DOMAIN f)
           a == Aggregate([x \in DOMAIN o |-> Snap(inst[f[o[x]]])])
       IN  a.v = SumSeq([x \in DOMAIN o |-> inst[f[o[x]]].sum]) /\ a.over = 1

Finish == Len(cmds) = MaxLen /\ cmds' = Append(cmds, "end") /\ UNCHANGED vars
GenNext == MCNext \/ Finish
Emit == Len(cmds) <= MaxLen \/ PrintT("GEN " \o ToJson([cmds |-> SubSeq(cmds, 1, MaxLen)]))
=============================================================================
