------------------------------ MODULE MCDyadic ------------------------------
(* The dyadic arithmetic agrees with TLC's integers wherever those reach.  *)
EXTENDS Dyadic, TLC
Pos == {0, 1, 2, 3, 7, 8, 64, 100, 4095, 8191, 8192, 8193, 16384, 40000, 99999, 67108864, 67108863, 1000000007}
Pool == Pos \cup {-x : x \in Pos}
VARIABLES a, b
Init == a \in Pool /\ b \in Pool
Next == UNCHANGED <<a, b>>
Big(x) == x > 40000 \/ x < -40000
Sign(x) == IF x < 0 THEN -1 ELSE IF x = 0 THEN 0 ELSE 1
Agrees ==
    /\ Add(FromInt(a), FromInt(b)) = FromInt(a + b)
    /\ Sub(FromInt(a), FromInt(b)) = FromInt(a - b)
    /\ (~Big(a) /\ ~Big(b)) => Mul(FromInt(a), FromInt(b)) = FromInt(a * b)
    /\ Cmp(FromInt(a), FromInt(b)) = Sign(a - b)
    /\ Mul(FromInt(a), Pow2(-3)) = (IF a % 8 = 0 THEN FromInt(a \div 8) ELSE Mul(FromInt(a), Pow2(-3)))
    /\ Mul(Mul(FromInt(a), Pow2(-40)), Pow2(40)) = FromInt(a)
    /\ (b > 0 /\ a >= 0 /\ b < 200000) => DivSmall(FromInt(a), b, 0) = FromInt(a \div b)
    /\ (a >= 0) => Chop(Mul(FromInt(a), Pow2(-13)), 0) = FromInt(a \div 8192)
    \* algebra beyond 32 bits
    /\ LET A == Mul(FromInt(a), Mul(FromInt(a), FromInt(a)))
           C == Mul(FromInt(b), FromInt(a))
       IN  /\ Add(A, C) = Add(C, A)
           /\ Mul(Add(A, C), C) = Add(Mul(A, C), Mul(C, C))
           /\ Sub(Add(A, C), C) = A
=============================================================================
