----------------------------- MODULE ValueTrace -----------------------------
(* Is a trace recorded from the real metric_value a behaviour of Value?    *)
EXTENDS Value, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
Explain == "EXPLAIN" \in DOMAIN IOEnv
VARIABLES tid, l

TraceInit == tid \in 1..Len(Traces) /\ l = 2 /\ Init
Ev == Traces[tid][l]

Do(c) == CASE c.op = "set"  -> Set(c.i, c.ty, c.num)
           [] c.op \in {"copy", "move", "assign"} -> Copy(c.k, c.i)
           [] c.op = "bin"  -> Bin(c.f, c.k, c.i, c.j, c.res)
           [] c.op = "neg"  -> Negate(c.k, c.i, c.res)
           [] c.op = "cmp"  -> Compare(c.i, c.j)
           [] c.op = "conv" -> Convert(c.i)
           [] c.op = "skip" -> UNCHANGED vars

Seen(f) == f \in DOMAIN Ev
X == slot[Ev.i]
\* a conversion preserves the value if the target can hold it
Preserves(f, ty) == Seen(f) => (Representable(X.num, ty) => Ev[f] = X.num)

Matches ==
    /\ (Seen("res") => slot'[Ev.k].num = Ev.res)
    /\ (Seen("got") => Ev.got = slot'[IF Ev.op = "set" THEN Ev.i ELSE Ev.k].num)
    /\ ((Ev.op = "cmp" /\ \A k \in {Ev.i, Ev.j} : slot[k].ty \in Durs => Representable(slot[k].num, slot[k].ty)) => LET c == ret'[1] IN
            /\ Ev.lt = (c < 0) /\ Ev.le = (c <= 0) /\ Ev.gt = (c > 0) /\ Ev.ge = (c >= 0)
            /\ Ev.eq = (c = 0) /\ Ev.ne = (c # 0)
            /\ Ev.seq = (c = 0) /\ Ev.sne = (c # 0) /\ Ev.veq = (c = 0) /\ Ev.vne = (c # 0))
    /\ (Ev.op = "conv" =>
            /\ (X.ty \in Numeric =>
                  /\ Preserves("toi8", "i8") /\ Preserves("tou8", "u8")
                  /\ Preserves("toi16", "i16") /\ Preserves("tou16", "u16")
                  /\ Preserves("toi32", "i32") /\ Preserves("tou32", "u32")
                  /\ Preserves("toi64", "i64") /\ (X.ty \in Ints => Preserves("tou64", "u64"))
                  /\ Preserves("tod", "d") /\ Preserves("told", "ld")
                  /\ Preserves("tons", "ns"))
            /\ (X.ty \in Durs =>
                  /\ (HasNanos(X) => Ev.tons = Mul(X.num, NanosPer[X.ty]))
                  /\ Preserves("toi64", "i64") /\ Preserves("told", "ld"))
            /\ (X.ty = "str" => Preserves("toi64", "i64") /\ Preserves("tou64", "u64") /\ Preserves("told", "ld"))
            /\ (X.ty \in (Ints \cup IntDurs \cup {"str"}) => Ev.str = MulInt(X.num, 1000000))
            /\ (X.ty \in Floats => Near(Ev.str, MulInt(X.num, 1000000), One)))

TraceNext ==
    /\ l <= Len(Traces[tid])
    /\ Do(Ev)
    /\ Matches
    /\ l' = l + 1
    /\ tid' = tid
    /\ (l' > Len(Traces[tid]) => PrintT(<<"ACC", tid>>))

Progress == Explain => PrintT(<<"AT", l>>)
=============================================================================
