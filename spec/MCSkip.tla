------------------------------- MODULE MCSkip -------------------------------
(* Laws of the sorted set on all short histories, and generator of them.    *)
EXTENDS Skip, Json
CONSTANTS Keys, MaxLen
VARIABLES cmds
allvars == <<svars, cmds>>
N == Len(cmds) + 1
Valid == {i \in Iters : its[i] = 0 \/ Here(its[i])}
Ops == {[op |-> "ins", k |-> k, t |-> N] : k \in Keys} \cup {[op |-> "del", k |-> k] : k \in Keys}
       \cup {[op |-> "find", k |-> k, i |-> i] : k \in Keys, i \in Iters}
       \cup {[op |-> "begin", i |-> i] : i \in Iters}
       \cup {[op |-> "step", i |-> i] : i \in {x \in Valid : its[x] # 0}}
       \cup {[op |-> "delat", i |-> i] : i \in {x \in Iters : its[x] # NoWhere}}
       \cup {[op |-> "sweep", m |-> 2, r |-> r] : r \in 0..1} \cup {[op |-> "sweep", m |-> 1, r |-> 0]}
MCInit == SInit /\ cmds = <<>>
MCNext == Len(cmds) < MaxLen /\ \E c \in Ops : Do(c) /\ cmds' = Append(cmds, c)
View == <<elems, its, Len(cmds)>>
\* a set ordered by key, each key once
Distinct == \A x, y \in elems : x.key = y.key => x = y
Ascending == LET q == Sorted(elems) IN \A i \in 1..(Len(q) - 1) : q[i].key < q[i + 1].key
\* a removed element never comes back: an iterator at it stays invalid
Gone == [][\A i \in Iters : (its[i] > 0 /\ ~Here(its[i]) /\ its'[i] = its[i]) => ~(\E x \in elems' : x.id = its[i])]_allvars
\* walking from the beginning meets every element once
Walk == \A x \in elems : LET later == {y \in elems : Before(x.key, y.key)} IN
            First(later) = 0 \/ \A y \in later : ~Before(y.key, OfId(First(later)).key)
Finish == Len(cmds) = MaxLen /\ cmds' = Append(cmds, "end") /\ UNCHANGED svars
GenNext == MCNext \/ Finish
Emit == Len(cmds) <= MaxLen \/ PrintT("GEN " \o ToJson([cmds |-> SubSeq(cmds, 1, MaxLen)]))
=============================================================================
