----------------------------- MODULE OrderTrace -----------------------------
(***************************************************************************)
(* Relations between the metrics themselves, and between evaluations with   *)
(* nested projection subspaces.  A trace is a history of observations       *)
(*   [sub, L, r, e, sdr, sir, sar]                                          *)
(* (set of references, filter length, assigned pair) on one scene; every    *)
(* new observation must agree with all the earlier ones:                    *)
(*   product    sdr = sir * sar as square cosines                           *)
(*   own        one reference: sir is (almost) infinite, sdr = sar          *)
(*   sar        sar depends on (sub, L, e) only                             *)
(*   sdr        sdr depends on (L, r, e) only                               *)
(*   longer     neither sdr nor sar decreases with L                        *)
(*   larger     sar does not decrease with sub                              *)
(* The relations are theorems of the definition (Views).             *)
(***************************************************************************)
EXTENDS BigInt, FiniteSets, SequencesExt, Json, IOUtils, TLC

Worlds == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES w, i, verdict
vars == <<w, i, verdict>>

G == 1000000000
AbsI(x) == IF x < 0 THEN -x ELSE x
MaxI(a, b) == IF a > b THEN a ELSE b
Ten(k) == CASE k = 0 -> 1 [] k = 1 -> 10 [] k = 2 -> 100 [] k = 3 -> 1000 [] OTHER -> 10000
\* error of a square cosine (10^-9), as in SessionTrace
Tol9(dt, ck) == IF dt = "f32" THEN 4000 * Ten(ck) ELSE 4
\* error of the product relation (10^-15): the conversion to decibels, and clipping
TolProd(dt, ck) == IF dt = "f32" THEN BigMul(Big(4000), BigTen(6 + ck)) ELSE BigMul(Big(200), BigTen(ck))
One15 == BigTen(15)

\* sdr * 10^15 = sir * sar
Product(o, ck) ==
  BigLeq(BigAbs(BigSub(BigMul(o.sdr[2], One15), BigMul(o.sir[2], o.sar[2]))), BigMul(TolProd(o.dt, ck), One15))
Defined(o) == o.sdr[1] >= 0 /\ o.sir[1] >= 0 /\ o.sar[1] >= 0
\* in decibels SDR exceeds neither (1 micro-decibel of rounding), in double precision
Below(o) == /\ o.sdr[3] <= MaxI(o.sir[3], -2000000000) + (IF o.dt = "f32" THEN 500000 ELSE 1000) \/ o.sdr[3] > 100000000
            /\ o.sdr[3] <= MaxI(o.sar[3], -2000000000) + (IF o.dt = "f32" THEN 500000 ELSE 1000) \/ o.sdr[3] > 100000000

Pair(W, a, b) ==
  LET t == Tol9(a.dt, W.ck) + Tol9(b.dt, W.ck)
      sub(x, y) == \A z \in 1..Len(x) : \E u \in 1..Len(y) : x[z] = y[u]
  IN   (IF a.e = b.e /\ a.L = b.L /\ a.sub = b.sub /\ AbsI(a.sar[1] - b.sar[1]) > t THEN <<"sar">> ELSE <<>>)
    \o (IF a.e = b.e /\ a.L = b.L /\ a.r = b.r /\ AbsI(a.sdr[1] - b.sdr[1]) > t THEN <<"sdr">> ELSE <<>>)
    \o (IF a.e = b.e /\ a.r = b.r /\ a.L < b.L /\ a.sdr[1] > b.sdr[1] + t THEN <<"longer filter, smaller sdr">> ELSE <<>>)
    \o (IF a.e = b.e /\ a.L <= b.L /\ sub(a.sub, b.sub) /\ a.sar[1] > b.sar[1] + t THEN <<"larger space, smaller sar">> ELSE <<>>)

Judge(W, n) ==
  LET o == W.obs[n] IN
  IF o.out # "ok" THEN <<o.out>>
  ELSE IF ~Defined(o) THEN <<"nan">>
  ELSE (IF Product(o, W.ck) THEN <<>> ELSE <<"product">>)
    \o (IF Below(o) THEN <<>> ELSE <<"order">>)
    \o (IF Len(o.sub) = 1 /\ (G - o.sir[1] > Tol9(o.dt, W.ck) * 2 \/ AbsI(o.sdr[1] - o.sar[1]) > Tol9(o.dt, W.ck)) THEN <<"single reference">> ELSE <<>>)
    \o FoldLeft(LAMBDA acc, m : LET x == W.obs[m] IN
                   IF x.out # "ok" \/ ~Defined(x) THEN acc ELSE acc \o Pair(W, x, o) \o Pair(W, o, x), <<>>, [m \in 1..(n-1) |-> m])

Init == w \in 1..Len(Worlds) /\ i = 0 /\ verdict = <<>>
Step ==
  /\ i < Len(Worlds[w].obs)
  /\ LET v == Judge(Worlds[w], i + 1) IN
     /\ verdict' = v
     /\ (v # <<>> => PrintT(ToJson([st |-> "bad", id |-> Worlds[w].id, call |-> i + 1, clauses |-> SetToSeq(ToSet(v))])))
  /\ i' = i + 1
  /\ (i + 1 = Len(Worlds[w].obs) => PrintT(ToJson([st |-> "done", id |-> Worlds[w].id, n |-> i + 1])))
  /\ UNCHANGED w
Spec == Init /\ [][Step]_vars
=============================================================================
