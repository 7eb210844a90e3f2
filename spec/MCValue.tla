------------------------------ MODULE MCValue ------------------------------
(* Laws of the value specification on every pair and triple of boundary    *)
(* numbers, and a generator of operation sequences.                        *)
EXTENDS Value, Json

CONSTANTS MaxLen, Mode
VARIABLES cmds
allvars == <<vars, cmds>>

Edge(ty) == IF ty \in Ints THEN {MinVal(ty), MaxVal(ty), Add(MinVal(ty), One), Sub(MaxVal(ty), One)} ELSE {}
Pool == {Zero, One, Neg(One), FromInt(7), Mul(FromInt(-5), Pow2(-6)), Pow2(200), Neg(Pow2(70)), Add(Pow2(53), One)}
        \cup UNION {Edge(t) : t \in {"i8", "u32", "i64", "u64"}}

Ops == {"add", "sub", "mul", "div"}
Alphabet ==
    {[op |-> "set", i |-> i] : i \in Slots}
    \cup {[op |-> o, k |-> k, i |-> i] : o \in {"copy", "move", "assign", "neg"}, k \in Slots, i \in Slots}
    \cup {[op |-> "bin", f |-> f, k |-> k, i |-> i, j |-> j, inplace |-> (k = i)] :
             f \in Ops, k \in Slots, i \in Slots, j \in Slots}
    \cup {[op |-> "cmp", i |-> i, j |-> j] : i \in Slots, j \in Slots}

Used(c) == CASE c.op = "set" -> {} [] c.op \in {"bin", "cmp"} -> {c.i, c.j} [] OTHER -> {c.i}

\* skeletons: which slots have been set so far is all the state that matters here
Skeleton == \E c \in Alphabet :
    /\ Len(cmds) < MaxLen
    /\ \A i \in Used(c) : slot[i].ty # "none"
    /\ (c.op \in {"copy", "move", "assign"} => c.k # c.i)
    /\ cmds' = Append(cmds, c)
    /\ slot' = CASE c.op \in {"cmp"} -> slot
                 [] c.op = "set" -> [slot EXCEPT ![c.i].ty = "i64"]
                 [] c.op = "move" -> [slot EXCEPT ![c.k].ty = "i64", ![c.i].ty = "none"]
                 [] OTHER -> [slot EXCEPT ![c.k].ty = "i64"]
    /\ ret' = ret

\* laws: pick numbers for the slots
Pick == \E p \in [Slots -> Pool] :
    /\ cmds = <<>>
    /\ cmds' = <<"picked">>
    /\ slot' = [i \in Slots |-> [ty |-> "ld", num |-> p[i]]]
    /\ ret' = ret

MCInit == Init /\ cmds = <<>>
MCNext == IF Mode = "laws" THEN Pick ELSE Skeleton

V(i) == slot[i].num
Laws == cmds = <<"picked">> =>
    /\ Cmp(V(1), V(2)) = 0 - Cmp(V(2), V(1))
    /\ (Cmp(V(1), V(2)) = 0) = (V(1) = V(2))
    /\ (Le(V(1), V(2)) /\ Le(V(2), V(3))) => Le(V(1), V(3))
    /\ Add(V(1), V(2)) = Add(V(2), V(1))
    /\ Mul(V(1), V(2)) = Mul(V(2), V(1))
    /\ Add(Add(V(1), V(2)), V(3)) = Add(V(1), Add(V(2), V(3)))
    /\ Mul(V(1), Add(V(2), V(3))) = Add(Mul(V(1), V(2)), Mul(V(1), V(3)))
    /\ Sub(Add(V(1), V(2)), V(2)) = V(1)
    /\ Le(V(1), V(2)) => Le(Add(V(1), V(3)), Add(V(2), V(3)))
\* generator: print complete behaviours, once each (simulation evaluates constraints on every successor)
Finish == Len(cmds) = MaxLen /\ cmds' = Append(cmds, "end") /\ UNCHANGED vars
GenNext == MCNext \/ Finish
Emit == Len(cmds) <= MaxLen \/ PrintT("GEN " \o ToJson([cmds |-> SubSeq(cmds, 1, MaxLen)]))
=============================================================================
