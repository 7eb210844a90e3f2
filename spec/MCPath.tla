------------------------------- MODULE MCPath -------------------------------
(* Laws of paths over all short compositions, and generator of them.        *)
EXTENDS Path, Json, FiniteSets

CONSTANTS MaxLen
VARIABLE cmds
Texts == {<<>>, <<97>>, <<98>>, <<97, 98>>, <<97, 47, 98>>}
Ops == {[op |-> "plit", p |-> i, t |-> t] : i \in Slots, t \in Texts}
       \cup {[op |-> "pjoin", p |-> i, q |-> j, r |-> r] : i \in Slots, j \in Slots, r \in Slots}
       \cup {[op |-> "ptext", p |-> i, t |-> t, side |-> s, r |-> i] : i \in Slots, t \in {<<>>, <<97>>}, s \in {0, 1}}
MCInit == PInit /\ cmds = <<>>
MCNext == Len(cmds) < MaxLen /\ \E c \in Ops : Do(c) /\ cmds' = Append(cmds, c)
View == <<path, Len(cmds)>>
NoEmptyNames == \A i \in Slots : \A k \in DOMAIN path[i] : path[i][k] # <<>>
\* joining is associative; the empty path is neutral
Monoid == \A i, j, k \in Slots : (path[i] \o path[j]) \o path[k] = path[i] \o (path[j] \o path[k])
\* the joined text determines the path as long as no component contains the delimiter
Injective == \A i, j \in Slots : LET plain(p) == \A x \in DOMAIN p : \A y \in DOMAIN p[x] : p[x][y] # 47 IN
                (plain(path[i]) /\ plain(path[j]) /\ Joined(path[i], <<47>>) = Joined(path[j], <<47>>)) => path[i] = path[j]
Finish == Len(cmds) = MaxLen /\ cmds' = Append(cmds, "end") /\ UNCHANGED pvars
GenNext == MCNext \/ Finish
Emit == Len(cmds) <= MaxLen \/ PrintT("GEN " \o ToJson([cmds |-> SubSeq(cmds, 1, MaxLen)]))
=============================================================================
