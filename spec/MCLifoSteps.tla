---------------------------- MODULE MCLifoSteps ----------------------------
(***************************************************************************)
(* Programs in which the untagged stack goes wrong: what each thread does, *)
(* given to the real code as programs to run under every schedule.         *)
(***************************************************************************)
EXTENDS LifoSteps, Json
VARIABLES did, size0
Note(p, op) == did' = [did EXCEPT ![p] = Append(@, op)] /\ size0' = size0
MCInit == Init /\ did = [p \in Threads |-> <<>>] /\ size0 = Len(ghost)
MCNext == \E p \in Threads :
    \/ StartPush(p) /\ Note(p, "push")
    \/ StartPop(p) /\ Note(p, "pop")
    \/ Free(p) /\ Note(p, "free")
    \/ Again(p) /\ Note(p, "again")
    \/ (Link(p) \/ PushCas(p) \/ Follow(p) \/ PopCas(p)) /\ UNCHANGED <<did, size0>>
Wrong == bad \/ Walk(head.n, Cardinality(Nodes) + 1) # ghost
StopWhenWrong == Wrong => PrintT("GEN " \o ToJson([size |-> size0, did |-> did])) /\ FALSE
=============================================================================
