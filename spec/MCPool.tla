------------------------------- MODULE MCPool -------------------------------
(* Laws of pooled handles on all short histories, and generator of them.    *)
EXTENDS Pool, Json
CONSTANT MaxLen
VARIABLES cmds
allvars == <<pvars, cmds>>
N == Len(cmds) + 1
Ops == {[op |-> "alloc", h |-> h, v |-> N * 10] : h \in Handles}
       \cup {[op |-> o, h |-> x[1], g |-> x[2]] : o \in {"assign", "massign"}, x \in Handles \X Handles}
       \cup {[op |-> "null", h |-> h] : h \in {x \in Handles : own[x] # 0}}
       \cup {[op |-> o, h |-> x[1], g |-> x[2], r |-> x[3]] : o \in {"xchg", "cas"}, x \in Handles \X Handles \X Handles}
       \cup {[op |-> "put", h |-> h, v |-> N * 10] : h \in {x \in Handles : own[x] # 0}}
MCInit == PInit /\ cmds = <<>>
MCNext == Len(cmds) < MaxLen /\ \E c \in Ops : Do(c) /\ cmds' = Append(cmds, c)
\* up to the names of objects
View == <<[h \in Handles |-> [g \in Handles |-> own[h] = own[g]]], [h \in Handles |-> IF own[h] = 0 THEN 0 ELSE val[own[h]]], peak, Len(cmds)>>
\* an object once let go by all is never owned again
OneLife == [][\A o \in 1..Len(val) : o \notin Objects(own) => o \notin Objects(own')]_allvars
\* a handle changes only by commands naming it, an object's value only through a handle that owns it
Private == [][\A o \in 1..Len(val) : val'[o] # val[o] => \E h \in Handles : own[h] = o /\ own'[h] = o]_allvars
Peak == Alive <= peak
Finish == Len(cmds) = MaxLen /\ cmds' = Append(cmds, "end") /\ UNCHANGED pvars
GenNext == MCNext \/ Finish
Emit == Len(cmds) <= MaxLen \/ PrintT("GEN " \o ToJson([cmds |-> SubSeq(cmds, 1, MaxLen)]))
=============================================================================
