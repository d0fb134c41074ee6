----------------------------- MODULE BigIntTest -----------------------------
(* Self test of BigInt against native arithmetic, exhaustive on a range.    *)
EXTENDS BigInt, Integers, Sequences, TLC
Samples == {-46340, -9999, -1001, -1000, -999, -501, -1, 0, 1, 2, 7, 499, 999, 1000, 1001, 1999,
            20000, 46340} \cup -3..3
VARIABLES a, b
Init == a \in Samples /\ b \in Samples
Next == UNCHANGED <<a, b>>
Normal(x) == /\ \A i \in 1..(Len(x)-1) : x[i] \in 0..(B-1)
             /\ x[Len(x)] \in (-B)..(B-1)
Right == /\ BigToInt(BigAdd(Big(a), Big(b))) = a + b
         /\ BigToInt(BigSub(Big(a), Big(b))) = a - b
         /\ BigToInt(BigMul(Big(a), Big(b))) = a * b
         /\ BigToInt(BigScale(Big(a), b)) = a * b
         /\ BigToInt(BigAbs(Big(a))) = (IF a < 0 THEN -a ELSE a)
         /\ BigLeq(Big(a), Big(b)) = (a <= b)
         /\ BigLt(Big(a), Big(b)) = (a < b)
         /\ BigSign(Big(a)) = (IF a < 0 THEN -1 ELSE IF a = 0 THEN 0 ELSE 1)
         /\ Normal(BigMul(Big(a), Big(b)))
         \* (a*10^12 + b)^2 = a^2*10^24 + 2ab*10^12 + b^2 with numbers beyond 64 bits
         /\ LET x == BigAdd(BigMul(Big(a), BigTen(12)), Big(b)) IN
            BigIsZero(BigSub(BigMul(x, x),
              BigAdd(BigMul(BigMul(Big(a), Big(a)), BigTen(24)),
              BigAdd(BigMul(BigScale(BigMul(Big(a), Big(b)), 2), BigTen(12)),
                     BigMul(Big(b), Big(b))))))
=============================================================================
