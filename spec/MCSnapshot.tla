----------------------------- MODULE MCSnapshot -----------------------------
(* Exhaustive check of the snapshot laws on small samples, and generator   *)
(* of construction/merge histories for the conformance tests.              *)
EXTENDS Snapshot, Json

CONSTANTS Vals, MaxMake, MaxLen, Codes
VARIABLES cmds, given      \* given[h]: every sample that went into h, in arrival order
allvars == <<vars, cmds, given>>

Small == UNION {[1..n -> Vals] : n \in 0..MaxMake}
Conv(s) == [i \in 1..Len(s) |-> FromInt(s[i])]

MCInit == Init /\ cmds = <<>> /\ given = [h \in Handles |-> <<>>]
MCNext ==
    /\ Len(cmds) < MaxLen
    /\ \/ \E h \in Handles, s \in Small :
            /\ ~box[h].live
            /\ \A g \in Handles : g < h => box[g].live
            /\ Make(h, Conv(s), FromInt(Len(s)))
            /\ given' = [given EXCEPT ![h] = s]
            /\ cmds' = Append(cmds, [op |-> "make", h |-> h, samples |-> s])
       \/ \E h, g \in Handles :
            /\ h # g
            /\ Merge(h, g)
            /\ given' = [given EXCEPT ![h] = @ \o given[g]]
            /\ cmds' = Append(cmds, [op |-> "merge", h |-> h, g |-> g])
View == <<box, given>>

CountIn(s, v) == Len(SelectSeq(s, LAMBDA x : x = v))
\* P07: exactly the samples of all inputs, counts added up
KeepsAll == \A h \in Handles : box[h].live =>
    /\ \A v \in Vals : CountIn(box[h].items, FromInt(v)) = CountIn(given[h], v)
    /\ Len(box[h].items) = Len(given[h])
    /\ box[h].count = FromInt(Len(given[h]))
\* P12: order statistics
Statistics == \A h \in Handles : (box[h].live /\ box[h].items # <<>>) =>
    LET S == box[h].items IN
    /\ \A i \in 1..(N(S) - 1) : Le(S[i], S[i + 1])
    /\ \A i \in 1..N(S) : Le(Mn(S), S[i]) /\ Le(S[i], Mx(S))
    /\ \A c \in Codes : LET q == QuantileTimes(S, FromInt(c), FromInt(8)) IN
          /\ Le(MulInt(Mn(S), 8), q) /\ Le(q, MulInt(Mx(S), 8))
          /\ \A d \in Codes : c <= d => Le(q, QuantileTimes(S, FromInt(d), FromInt(8)))
    /\ QuantileTimes(S, FromInt(0), FromInt(8)) = MulInt(Mn(S), 8)
    /\ QuantileTimes(S, FromInt(8), FromInt(8)) = MulInt(Mx(S), 8)

\* generator: print complete behaviours, once each (simulation evaluates constraints on every successor)
Finish == Len(cmds) = MaxLen /\ cmds' = Append(cmds, "end") /\ UNCHANGED <<vars, given>>
GenNext == MCNext \/ Finish
Emit == Len(cmds) <= MaxLen \/ PrintT("GEN " \o ToJson([cmds |-> SubSeq(cmds, 1, MaxLen)]))
=============================================================================
