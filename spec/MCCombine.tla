----------------------------- MODULE MCCombine -----------------------------
(* Combining keeps every part with equal weight, however it is grouped.     *)
EXTENDS Combine, Json
CONSTANTS Vals, MaxLen
VARIABLES parts, cmds   \* parts[h]: the values that went into h, in order
allvars == <<vars, parts, cmds>>
Fresh == {h \in Handles : box[h].kind = "none"}
Held == Handles \ Fresh
MCInit == Init /\ parts = [h \in Handles |-> <<>>] /\ cmds = <<>>
MMake(h, v) == Make(h, "avg", <<FromInt(v)>>) /\ parts' = [parts EXCEPT ![h] = <<v>>] /\ cmds' = Append(cmds, [op |-> "make", h |-> h, v |-> v])
MMerge(h, g) == Merge(h, g) /\ parts' = [parts EXCEPT ![h] = parts[h] \o parts[g]] /\ cmds' = Append(cmds, [op |-> "merge", h |-> h, g |-> g])
MMove(h, g) == Move(h, g) /\ parts' = [parts EXCEPT ![g] = parts[h], ![h] = <<>>] /\ cmds' = Append(cmds, [op |-> "move", h |-> h, g |-> g])
MCNext == /\ Len(cmds) < MaxLen
          /\ \/ \E h \in Fresh, v \in Vals : (\A x \in Handles : x < h => x \in Held) /\ MMake(h, v)
             \/ \E h, g \in Held : MMerge(h, g)
             \/ \E h, g \in Held : MMove(h, g)
View == <<box, parts, Len(cmds)>>
\* the value is the mean of everything that went in, and only depends on what did
KeepsAll == \A h \in Held : /\ box[h].n = Len(parts[h])
                            /\ box[h].sums = <<SumSeq([i \in 1..Len(parts[h]) |-> FromInt(parts[h][i])])>>
Finish == Len(cmds) = MaxLen /\ cmds' = Append(cmds, "end") /\ UNCHANGED <<box, parts>>
GenNext == MCNext \/ Finish
Emit == Len(cmds) <= MaxLen \/ PrintT("GEN " \o ToJson([cmds |-> SubSeq(cmds, 1, MaxLen)]))
=============================================================================
