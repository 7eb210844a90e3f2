------------------------------ MODULE Snapshot ------------------------------
(***************************************************************************)
(* Snapshots of sampled metrics: order statistics, sampling and merging    *)
(* (P12, P07).  A snapshot is the ascending sequence of its samples, exact *)
(* dyadic numbers, and a count.                                            *)
(***************************************************************************)
EXTENDS Dyadic, TLC

CONSTANT Handles
VARIABLES box,      \* box[h]: [live, items, count]
          ret
vars == <<box, ret>>

Absent == [live |-> FALSE, items |-> <<>>, count |-> Zero]
Ascending(s) == SortSeq(s, LAMBDA a, b : Lt(a, b))

\* M is the code of quantile 1: a quantile q is passed as the integer q*M
M == <<1, 0, <<8191, 8191, 63>>>>

N(S) == Len(S)
Mn(S) == S[1]
Mx(S) == S[Len(S)]
MaxAbs(S) == MaxOf(Abs(Mn(S)), Abs(Mx(S)))

\* position q*(n+1) with q = num/den: the largest index not above it
RECURSIVE IndexBelow(_, _, _, _)
IndexBelow(S, num, den, i) ==
    IF i > N(S) \/ ~Le(MulInt(den, i), MulInt(num, N(S) + 1)) THEN i - 1
    ELSE IndexBelow(S, num, den, i + 1)

\* den times the value at quantile num/den
QuantileTimes(S, num, den) ==
    LET i == IndexBelow(S, num, den, 1) IN
    IF i < 1 THEN Mul(den, Mn(S))
    ELSE IF i >= N(S) THEN Mul(den, Mx(S))
    ELSE Add(Mul(den, S[i]),
             Mul(Sub(MulInt(num, N(S) + 1), MulInt(den, i)), Sub(S[i + 1], S[i])))

\* what the code computes in long double arithmetic may differ by this much
Tol(S) == Mul(MaxAbs(S), Pow2(-40))

IsMean(S, x) == IF S = <<>> THEN x = Zero
                ELSE Near(MulInt(x, N(S)), SumSeq(S), MulInt(Mul(MaxAbs(S), Pow2(-46)), N(S)))
IsQuantile(S, num, den, x) ==
                IF S = <<>> THEN x = Zero
                ELSE Near(Mul(x, den), QuantileTimes(S, num, den), Mul(den, Tol(S)))

Hundred == FromInt(100)
\* out is the sequence of <<value, percentile>> handed to the sampling handler
IsSampling(S, max, out) ==
    /\ Len(out) <= max
    /\ \A i \in 1..Len(out) :
          /\ Le(Zero, out[i][2]) /\ Le(out[i][2], Hundred)
          /\ IsQuantile(S, out[i][2], Hundred, out[i][1])
          /\ Le(Sub(Mn(S), Tol(S)), out[i][1]) /\ Le(out[i][1], Add(Mx(S), Tol(S)))
    /\ \A i \in 1..(Len(out) - 1) :
          /\ Lt(out[i][2], out[i + 1][2])
          /\ Le(out[i][1], Add(out[i + 1][1], Tol(S)))

-----------------------------------------------------------------------------
Init == box = [h \in Handles |-> Absent] /\ ret = <<>>

Make(h, samples, count) ==
    /\ box' = [box EXCEPT ![h] = [live |-> TRUE, items |-> Ascending(samples), count |-> count]]
    /\ ret' = <<>>

\* merging keeps every sample of both and adds the counts; g is unchanged
Merge(h, g) ==
    /\ box[h].live /\ box[g].live
    /\ box' = [box EXCEPT ![h] = [live |-> TRUE,
                                  items |-> Ascending(box[h].items \o box[g].items),
                                  count |-> Add(box[h].count, box[g].count)]]
    /\ ret' = <<>>

\* moving a snapshot into a new or an existing one
Move(h, g) ==
    /\ box[h].live /\ h # g
    /\ box' = [box EXCEPT ![g] = box[h], ![h] = Absent]
    /\ ret' = <<>>

\* pure queries
Query(h) == box[h].live /\ ret' = box[h].items /\ UNCHANGED box

Do(c) == CASE c.op = "make"  -> Make(c.h, c.samples, c.count)
           [] c.op = "merge" -> Merge(c.h, c.g)
           [] c.op = "move"  -> Move(c.h, c.g)
           [] c.op \in {"stats", "quant", "sample", "qseq"} -> Query(c.h)
=============================================================================
