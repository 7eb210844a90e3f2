-------------------------------- MODULE Path --------------------------------
(***************************************************************************)
(* Metric paths (P27): lists of non-empty names.  A name is a sequence of  *)
(* character codes.                                                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

CONSTANT Slots
VARIABLES path,   \* path[i]: the list of components
          pret
pvars == <<path, pret>>

PInit == path = [i \in Slots |-> <<>>] /\ pret = [k |-> "init"]
One(text) == IF text = <<>> THEN <<>> ELSE <<text>>
Put(i, p) == path' = [path EXCEPT ![i] = p] /\ pret' = [k |-> "ok"]

RECURSIVE Joined(_, _)
Joined(p, d) == IF p = <<>> THEN <<>> ELSE IF Len(p) = 1 THEN p[1] ELSE p[1] \o d \o Joined(Tail(p), d)

Do(c) ==
    CASE c.op = "plit"  -> Put(c.p, One(c.t))
      [] c.op = "pjoin" -> Put(c.r, path[c.p] \o path[c.q])
      [] c.op = "ptext" -> Put(c.r, IF c.side = 1 THEN One(c.t) \o path[c.p] ELSE path[c.p] \o One(c.t))
      [] c.op = "plist" -> pret' = [k |-> "list", v |-> path[c.p]] /\ UNCHANGED path
      [] c.op = "pstr"  -> pret' = [k |-> "text", v |-> Joined(path[c.p], c.d)] /\ UNCHANGED path
      [] c.op = "peq"   -> pret' = [k |-> "eq", v |-> path[c.p] = path[c.q]] /\ UNCHANGED path
=============================================================================
