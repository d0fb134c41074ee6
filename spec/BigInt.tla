------------------------------- MODULE BigInt -------------------------------
(***************************************************************************)
(* Integers of arbitrary size, because those of TLC have 32 bits.          *)
(*                                                                         *)
(* A number is a non-empty little-endian sequence of limbs in base B.  In  *)
(* the normal form every limb but the last is in 0..B-1 and the last one   *)
(* carries the sign, so that a normal number is negative iff its last limb *)
(* is.  "Loose" vectors of limbs (any native integers) are sums that have  *)
(* not been carried yet; Norm brings them to normal form.                  *)
(***************************************************************************)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
LOCAL INSTANCE SequencesExt
LOCAL INSTANCE TLC

B == 1000

RECURSIVE BigSpread(_)
BigSpread(c) == IF c > -B /\ c < B THEN <<c>>
                ELSE <<c % B>> \o BigSpread(c \div B)

RECURSIVE BigTrim(_)
BigTrim(s) ==
  LET n == Len(s) IN
  IF n = 1 THEN s
  ELSE IF s[n] = 0 /\ s[n-1] >= 0 THEN BigTrim(SubSeq(s, 1, n - 1))
  ELSE s

\* loose limbs -> normal form
Norm(v) ==
  LET f == FoldLeft(LAMBDA a, x : <<Append(a[1], (x + a[2]) % B), (x + a[2]) \div B>>,
                    << <<>>, 0 >>, v)
  IN BigTrim(f[1] \o BigSpread(f[2]))

Big(k) == Norm(<<k>>)
BigZero == <<0>>

Limb(a, i) == IF i <= Len(a) THEN a[i] ELSE 0
MaxN(x, y) == IF x > y THEN x ELSE y

BigAdd(a, b) == Norm([i \in 1..MaxN(Len(a), Len(b)) |-> Limb(a, i) + Limb(b, i)])
BigSub(a, b) == Norm([i \in 1..MaxN(Len(a), Len(b)) |-> Limb(a, i) - Limb(b, i)])
BigNeg(a)    == Norm([i \in 1..Len(a) |-> -a[i]])

\* |k| <= 2*10^6
BigScale(a, k) == Norm([i \in 1..Len(a) |-> a[i] * k])

\* Partial products are below 10^6, so 2000 of them fit in a native integer.
BigMul(a, b) ==
  LET n == Len(a)
      m == Len(b)
      \* coefficient of B^(k-1)
      Coef(k) == LET lo == IF k - m + 1 > 1 THEN k - m + 1 ELSE 1
                     hi == IF k < n THEN k ELSE n
                 IN FoldLeft(LAMBDA s, i : s + a[i] * b[k + 1 - i], 0,
                             [j \in 1..(hi - lo + 1) |-> lo + j - 1])
  IN Norm([k \in 1..(n + m - 1) |-> Coef(k)])

BigIsNeg(a)  == a[Len(a)] < 0
BigIsZero(a) == \A i \in 1..Len(a) : a[i] = 0
BigSign(a)   == IF BigIsNeg(a) THEN -1 ELSE IF BigIsZero(a) THEN 0 ELSE 1
BigAbs(a)    == IF BigIsNeg(a) THEN BigNeg(a) ELSE a
BigLeq(a, b) == ~BigIsNeg(BigSub(b, a))
BigLt(a, b)  == BigIsNeg(BigSub(a, b))

\* 10^k, k >= 0
BigTen(k) == [i \in 1..(k \div 3) |-> 0] \o
             <<CASE k % 3 = 0 -> 1 [] k % 3 = 1 -> 10 [] OTHER -> 100>>

\* back to a native integer (for values known to be small)
BigToInt(a) == FoldRight(LAMBDA x, s : s * B + x, a, 0)
=============================================================================
