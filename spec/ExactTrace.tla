----------------------------- MODULE ExactTrace -----------------------------
(***************************************************************************)
(* Validation of recorded calls against the exact definition.              *)
(*                                                                         *)
(* Every line of the trace is one set of signals with its certificates     *)
(* (see Projection) and the observations of several calls of the           *)
(* implementation on these signals (other gains, back ends, precisions,    *)
(* functions).  A line is one initial state; action Judge computes the     *)
(* names of all the clauses it violates, so every line gets a verdict.     *)
(***************************************************************************)
EXTENDS Projection, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES ev, verdict
vars == <<ev, verdict>>

(* ---- tolerances (units of 10^-15 on a square cosine) ------------------- *)
(* The error of the direct solution is of the order of the rounding unit    *)
(* times the condition number of the normalised system, 10^ck at most.      *)
Tol(dt, ck) ==
  IF dt = "f32" THEN BigMul(Big(4000), BigTen(6 + ck))
                ELSE BigMul(Big(200), BigTen(ck))      \* f64, and integers computed in f64

One15 == BigTen(15)

(* ---- one line ---------------------------------------------------------- *)
JudgeLine(e) ==
  LET K == Len(e.refs)
      M == Len(e.ests)
      L == e.L
      refs == TLCEval([k \in 1..K |-> IF e.zm THEN Centre(e.refs[k], e.T) ELSE e.refs[k]])
      ests == TLCEval([m \in 1..M |-> IF e.zm THEN Centre(e.ests[m], e.T) ELSE e.ests[m]])
      efs == TLCEval([m \in 1..M |-> SigFcn(ests[m])])
      e2 == TLCEval([m \in 1..M |-> Energy(ests[m])])
      \* diagonal loading acts on the single-reference system only for L > 1
      dnS == IF L = 1 THEN 0 ELSE e.dn
      kindS == TLCEval([k \in 1..K |-> [m \in 1..M |->
                 CertKind(<<refs[k]>>, efs[m], e2[m], L, dnS, e.dd, e.cs[k][m].D, e.cs[k][m].h)]])
      kindJ == TLCEval([m \in 1..M |-> IF e.joint
                 THEN CertKind(refs, efs[m], e2[m], L, e.dn, e.dd, e.cj[m].D, e.cj[m].h) ELSE "none"])
      \* coherences as num / den
      numS == TLCEval([k \in 1..K |-> [m \in 1..M |-> CohNum(<<refs[k]>>, efs[m], L, e.cs[k][m].h)]])
      denS == TLCEval([k \in 1..K |-> [m \in 1..M |-> BigMul(e.cs[k][m].D, Big(e2[m]))]])
      numJ == TLCEval([m \in 1..M |-> IF e.joint THEN CohNum(refs, efs[m], L, e.cj[m].h) ELSE <<0>>])
      denJ == TLCEval([m \in 1..M |-> IF e.joint THEN BigMul(e.cj[m].D, Big(e2[m])) ELSE <<1>>])

      badcert == \/ \E k \in 1..K : \E m \in 1..M : kindS[k][m] = "bad"
                 \/ \E m \in 1..M : kindJ[m] = "bad"

      \* the coherence of the metric behind an observed value (losses are negated metrics)
      Coh(c, v) == IF c.neg THEN BigSub(One15, v) ELSE v
      Ok(c, v) == v # <<>>
      SdrOk(c, v, k, m) == Ok(c, v) /\ Near(Coh(c, v), numS[k][m], denS[k][m], Tol(c.dt, e.ck))
      SarOk(c, v, m) == Ok(c, v) /\ Near(Coh(c, v), numJ[m], denJ[m], Tol(c.dt, e.ck))
      \* SIR = SDR / SAR as square cosines: |c*numJ*denS - numS*denJ| <= 2 tol denS denJ
      SirNear(c, v, k, m) ==
        LET lhs == BigMul(BigMul(v, numJ[m]), denS[k][m])
            rhs == BigMul(BigMul(numS[k][m], denJ[m]), BigTen(15))
            tol == BigScale(BigMul(BigMul(Tol(c.dt, e.ck), denS[k][m]), denJ[m]), 2)
        IN BigLeq(BigAbs(BigSub(lhs, rhs)), tol)
      \* with diagonal loading the ratio may exceed one (filter length one loads the
      \* joint system only); it is then clipped to one
      SirClipped(c, k, m) == BigLeq(BigMul(numJ[m], denS[k][m]), BigMul(numS[k][m], denJ[m]))
      SirHi(c, v, k, m) == \/ SirNear(c, v, k, m)
                           \/ SirClipped(c, k, m) /\ Near(v, <<1>>, <<1>>, Tol(c.dt, e.ck))
      SirOk(c, v, k, m) == Ok(c, v) /\ SirHi(c, Coh(c, v), k, m)

      N == IF K < M THEN K ELSE M
      \* reference and estimate behind entry i of a permuted output
      RefOf(c, i) == IF K <= M THEN i ELSE c.perm[i] + 1
      EstOf(c, i) == IF K <= M THEN c.perm[i] + 1 ELSE i
      PermOk(c) == /\ Len(c.perm) = N
                   /\ \A i \in 1..N : c.perm[i] \in 0..(MaxN(K, M) - 1)
                   /\ \A i, j \in 1..N : i # j => c.perm[i] # c.perm[j]
      Injections == { f \in [1..N -> 1..MaxN(K, M)] : \A i, j \in 1..N : i # j => f[i] # f[j] }

      If(b, s) == IF b THEN <<>> ELSE <<s>>
      \* Deliberate behaviour of the implementation: scores that hold both +infinity and
      \* -infinity are refused (ValueError).  A score can be infinite when its square
      \* cosine is within rounding of 0 or 1.
      Hi(c, num, den) == Near(One15, num, den, Tol(c.dt, e.ck))
      Lo(c, num, den) == Near(BigZero, num, den, Tol(c.dt, e.ck))
      HiLo(c) ==
        \/ /\ \E k \in 1..K : \E m \in 1..M : Hi(c, numS[k][m], denS[k][m])
           /\ \E k \in 1..K : \E m \in 1..M : Lo(c, numS[k][m], denS[k][m])
        \/ /\ c.form = "bss"
           /\ \E k \in 1..K : \E m \in 1..M : SirHi(c, One15, k, m)
           /\ \E k \in 1..K : \E m \in 1..M : SirNear(c, BigZero, k, m)
      JudgeCall(c) ==
        IF c.out = "raise:ValueError" /\ c.form \in {"perm", "pit", "bss"} /\ HiLo(c) THEN <<>>
        ELSE IF c.out # "ok" THEN <<c.out>>
        ELSE CASE c.form = "pair" ->
                    If(Len(c.sdr) = K /\ \A k \in 1..K : Len(c.sdr[k]) = M, "shape") \o
                    If(\A k \in 1..Len(c.sdr) : \A m \in 1..Len(c.sdr[k]) :
                          k \in 1..K /\ m \in 1..M /\ SdrOk(c, c.sdr[k][m], k, m), "sdr")
               [] c.form = "diag" ->
                    If(Len(c.sdr) = K, "shape") \o
                    If(\A k \in 1..Len(c.sdr) : k \in 1..K /\ SdrOk(c, c.sdr[k], k, k), "sdr")
               [] c.form = "perm" ->
                    IF ~PermOk(c) THEN <<"perm">>
                    ELSE If(Len(c.sdr) = N /\ \A i \in 1..N : SdrOk(c, c.sdr[i], RefOf(c, i), EstOf(c, i)), "sdr")
               [] c.form = "pit" ->
                    If(Len(c.sdr) = N /\ \E f \in Injections : \A i \in 1..N :
                          SdrOk(c, c.sdr[i], IF K <= M THEN i ELSE f[i], IF K <= M THEN f[i] ELSE i), "sdr")
               [] c.form = "bss" ->
                    IF ~PermOk(c) THEN <<"perm">>
                    ELSE If(Len(c.sdr) = N /\ \A i \in 1..N : SdrOk(c, c.sdr[i], RefOf(c, i), EstOf(c, i)), "sdr") \o
                         If(Len(c.sir) = N /\ \A i \in 1..N : SirOk(c, c.sir[i], RefOf(c, i), EstOf(c, i)), "sir") \o
                         If(Len(c.sar) = N /\ \A i \in 1..N : SarOk(c, c.sar[i], EstOf(c, i)), "sar")
               [] c.form = "bssdiag" ->
                    If(Len(c.sdr) = K /\ \A i \in 1..K : SdrOk(c, c.sdr[i], i, i), "sdr") \o
                    If(Len(c.sir) = K /\ \A i \in 1..K : SirOk(c, c.sir[i], i, i), "sir") \o
                    If(Len(c.sar) = K /\ \A i \in 1..K : SarOk(c, c.sar[i], i), "sar")
               [] OTHER -> <<"unknown form">>
      verdicts == TLCEval([i \in 1..Len(e.calls) |-> JudgeCall(e.calls[i])])
      bad == { i \in 1..Len(e.calls) : verdicts[i] # <<>> }
      close == \/ \E k \in 1..K : \E m \in 1..M : kindS[k][m] = "close"
               \/ \E m \in 1..M : kindJ[m] = "close"
  IN IF badcert THEN [st |-> "cert", id |-> e.id]
     ELSE IF bad = {} THEN [st |-> IF close THEN "ok-close" ELSE "ok-exact", id |-> e.id]
     ELSE [st |-> "bad", id |-> e.id,
           calls |-> SetToSeq({ [call |-> i, clauses |-> verdicts[i]] : i \in bad })]

Init == ev \in 1..Len(Trace) /\ verdict = [st |-> "pending"]
Judge == /\ verdict.st = "pending"
         /\ verdict' = JudgeLine(Trace[ev])
         /\ PrintT(ToJson(verdict'))
         /\ UNCHANGED ev
Next == Judge
Spec == Init /\ [][Next]_vars
=============================================================================
