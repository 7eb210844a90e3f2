------------------------------- MODULE Dyadic -------------------------------
(***************************************************************************)
(* Exact dyadic numbers for TLC, whose own integers have 32 bits.          *)
(* A number is <<s, e, l>>: sign s in {-1,0,1} (2 and -2 are the           *)
(* infinities), limbs l (least significant first, base B) and the weight   *)
(* B^e of the first limb.  First and last limb are non-zero, so equal      *)
(* numbers are equal tuples.  Every finite C++ number is one of these.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt

B == 8192

RECURSIVE LowZeros(_, _)
LowZeros(l, i) == IF i <= Len(l) /\ l[i] = 0 THEN LowZeros(l, i + 1) ELSE i - 1
RECURSIVE Top(_, _)
Top(l, i) == IF i >= 1 /\ l[i] = 0 THEN Top(l, i - 1) ELSE i

Zero == <<0, 0, <<>>>>
Inf == <<2, 0, <<>>>>

Norm(s, e, l) ==
    LET t == Top(l, Len(l)) IN
    IF t = 0 THEN Zero
    ELSE LET z == LowZeros(l, 1) IN <<s, e + z, SubSeq(l, z + 1, t)>>

\* propagate carries (and borrows) through a raw limb sequence
Carry(raw) ==
    LET step(acc, x) == LET y == x + acc[1] IN <<y \div B, Append(acc[2], y % B)>>
        r == FoldLeft(step, <<0, <<>>>>, raw)
    IN  IF r[1] = 0 THEN r[2]
        ELSE IF r[1] < B THEN Append(r[2], r[1])
        ELSE r[2] \o <<r[1] % B, r[1] \div B>>

\* limb of x at weight B^w
At(x, w) == LET i == w - x[2] + 1 IN IF i >= 1 /\ i <= Len(x[3]) THEN x[3][i] ELSE 0
Hi(x) == x[2] + Len(x[3])           \* one above the highest weight
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b

RECURSIVE CmpFrom(_, _, _, _)
CmpFrom(a, b, w, low) ==
    IF w < low THEN 0
    ELSE IF At(a, w) # At(b, w) THEN (IF At(a, w) < At(b, w) THEN -1 ELSE 1)
    ELSE CmpFrom(a, b, w - 1, low)

\* compare magnitudes of non-zero numbers
CmpMag(a, b) ==
    IF Hi(a) # Hi(b) THEN (IF Hi(a) < Hi(b) THEN -1 ELSE 1)
    ELSE CmpFrom(a, b, Hi(a) - 1, Min2(a[2], b[2]))

\* -1, 0 or 1
Cmp(a, b) ==
    IF a[1] # b[1] THEN (IF a[1] < b[1] THEN -1 ELSE 1)
    ELSE IF a[1] \in {0, 2, -2} THEN 0
    ELSE IF a[1] > 0 THEN CmpMag(a, b) ELSE 0 - CmpMag(a, b)

Lt(a, b) == Cmp(a, b) < 0
Le(a, b) == Cmp(a, b) <= 0

Neg(a) == <<-a[1], a[2], a[3]>>
Abs(a) == IF a[1] < 0 THEN Neg(a) ELSE a

LOCAL Combine(a, b, f, s) ==        \* |a| + f*|b|, f in {1,-1}, |a| >= |b| if f = -1
    LET lo == Min2(a[2], b[2])
        hi == Max2(Hi(a), Hi(b))
    IN  Norm(s, lo, Carry([i \in 1..(hi - lo) |-> At(a, lo + i - 1) + f * At(b, lo + i - 1)]))

Add(a, b) ==
    IF a[1] = 0 THEN b
    ELSE IF b[1] = 0 THEN a
    ELSE IF a[1] = b[1] THEN Combine(a, b, 1, a[1])
    ELSE LET c == CmpMag(a, b) IN
         IF c = 0 THEN Zero
         ELSE IF c > 0 THEN Combine(a, b, -1, a[1])
         ELSE Combine(b, a, -1, b[1])

Sub(a, b) == Add(a, Neg(b))

RECURSIVE ConvSum(_, _, _, _)
ConvSum(a, b, k, i) ==                 \* sum of a[i]*b[k-i+1] for i >= the given i
    IF i > Len(a) \/ i > k THEN 0
    ELSE (IF k - i + 1 <= Len(b) THEN a[i] * b[k - i + 1] ELSE 0) + ConvSum(a, b, k, i + 1)

\* at most 30 limbs (390 bits) in the shorter operand
Mul(a, b) ==
    IF a[1] = 0 \/ b[1] = 0 THEN Zero
    ELSE LET x == IF Len(a[3]) <= Len(b[3]) THEN a ELSE b
             y == IF Len(a[3]) <= Len(b[3]) THEN b ELSE a
             n == Len(x[3]) + Len(y[3]) - 1
         IN  Norm(a[1] * b[1], a[2] + b[2], Carry([k \in 1..n |-> ConvSum(x[3], y[3], k, 1)]))

FromNat(n) == IF n < B THEN <<n>> ELSE IF n < B * B THEN <<n % B, n \div B>>
              ELSE <<n % B, (n \div B) % B, n \div (B * B)>>
FromInt(n) == IF n = 0 THEN Zero ELSE IF n > 0 THEN Norm(1, 0, FromNat(n)) ELSE Norm(-1, 0, FromNat(-n))
MulInt(a, n) == Mul(a, FromInt(n))

\* 2^k for any k
RECURSIVE P2(_)
P2(k) == IF k = 0 THEN 1 ELSE 2 * P2(k - 1)
Pow2(k) == LET r == k % 13 IN <<1, (k - r) \div 13, <<P2(r)>>>>

\* drop everything below weight B^e (towards zero)
Chop(a, e) ==
    IF a[1] \in {0, 2, -2} \/ a[2] >= e THEN a
    ELSE IF Hi(a) <= e THEN Zero
    ELSE Norm(a[1], e, SubSeq(a[3], e - a[2] + 1, Len(a[3])))

IsInteger(a) == a[1] = 0 \/ a[2] >= 0

\* a / n for a small integer n > 0, truncated below weight B^e
DivSmall(a, n, e) ==
    IF a[1] = 0 \/ Hi(a) <= e THEN Zero
    ELSE LET len == Hi(a) - e
             digits == [i \in 1..len |-> At(a, Hi(a) - i)]       \* most significant first
             step(acc, d) == LET y == acc[1] * B + d IN <<y % n, <<y \div n>> \o acc[2]>>
             r == FoldLeft(step, <<0, <<>>>>, digits)
         IN  Norm(a[1], e, Carry(r[2]))

\* |a - b| <= tol
Near(a, b, tol) == Le(Abs(Sub(a, b)), tol)
MaxOf(a, b) == IF Lt(a, b) THEN b ELSE a
MinOf(a, b) == IF Lt(b, a) THEN b ELSE a
SumSeq(s) == FoldLeft(LAMBDA x, y : Add(x, y), Zero, s)
=============================================================================
