----------------------------- MODULE GradTrace ------------------------------
(***************************************************************************)
(* Gradients of the returned values.                                        *)
(*                                                                         *)
(* exact lines: small integer signals; the square cosine of a metric is a   *)
(* rational function of the samples whose derivative is written down here   *)
(* (h the filters of the projection, A h the projection, N its numerator):  *)
(*    c            = x.h / |e|^2                                            *)
(*    dc / de      = 2 / |e|^2 * (A h - c e)                                *)
(*    dc / dr_k[s] = 2 / |e|^2 * ( sum_l h_k[l] (e - A h)[s+l]              *)
(*                                  - d |h_k|^2 r_k[s] )                     *)
(* and compared sample by sample with what was back-propagated (the driver  *)
(* converts decibels to square cosines, dc = c (1-c) ln10/10 d(dB)).        *)
(*                                                                         *)
(* plain lines: larger signals, longer filters; the derivative along a      *)
(* direction is compared with the difference of the values at two near      *)
(* points, and the gradient with the symmetries of the metrics: orthogonal  *)
(* to every signal (scale invariance), of zero sum when means are removed,  *)
(* zero where the metric is clamped, zero for signals that do not enter.    *)
(***************************************************************************)
EXTENDS Projection, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES ev, verdict
vars == <<ev, verdict>>
One15 == BigTen(15)
If(b, s) == IF b THEN <<>> ELSE <<s>>

(* ---- exact ------------------------------------------------------------------ *)
\* dense centred or raw samples as a function on 0..T-1
Tol12(o, ck) == IF o.cg > 0 THEN BigTen(9 + ck)
                ELSE IF o.dt = "f32" THEN BigMul(Big(50), BigTen(6 + ck)) ELSE BigMul(Big(100), BigTen(1 + ck))

BSum(s) == FoldLeft(LAMBDA a, x : BigAdd(a, x), BigZero, s)
\* of T times the centred gradient: T g - sum g
Centred(g, T) == LET sm == TLCEval(BSum(g)) IN [t \in 1..T |-> BigSub(BigScale(g[t], T), sm)]
HLimb(hk, l) == Norm([j \in 1..Len(hk) |-> hk[j][l]])

\* numerators of dc/de over  D E^2,  and of dc/dr_k over  dd D^2 E
\* refs: dense integer functions (1..T), e likewise
GradE(refs, e, T, L, D, h, E, num) ==
  LET ah == TLCEval([t \in 1..T |-> BSum([k \in 1..Len(refs) |-> BSum([l \in 1..L |->
              IF t - l + 1 >= 1 THEN BigScale(HLimb(h[k], l), refs[k][t - l + 1]) ELSE BigZero])])])
  IN [t \in 1..T |-> BigScale(BigSub(BigScale(ah[t], E), BigScale(num, e[t])), 2)]
GradR(refs, e, T, L, D, h, dn, dd) ==
  LET res == TLCEval([t \in 1..(T + L - 1) |-> BigSub(IF t <= T THEN BigScale(D, e[t]) ELSE BigZero,
               BSum([k \in 1..Len(refs) |-> BSum([l \in 1..L |->
                  IF t - l + 1 >= 1 /\ t - l + 1 <= T THEN BigScale(HLimb(h[k], l), refs[k][t - l + 1]) ELSE BigZero])]))])
      h2 == TLCEval([k \in 1..Len(refs) |-> BSum([l \in 1..L |-> BigMul(HLimb(h[k], l), HLimb(h[k], l))])])
  IN [k \in 1..Len(refs) |-> [s \in 1..T |->
        BigScale(BigSub(BigScale(BSum([l \in 1..L |-> BigMul(HLimb(h[k], l), res[s + l - 1])]), dd),
                        IF dn = 0 THEN BigZero ELSE BigScale(BigScale(h2[k], refs[k][s]), dn)), 2)]]

\* |g*10^-12 - num/den| <= tol*10^-12
Near12(g, num, den, tol) == BigLeq(BigAbs(BigSub(BigMul(g, den), BigMul(num, BigTen(12)))), BigMul(tol, den))
AllZero(g, tol) == \A t \in 1..Len(g) : BigLeq(BigAbs(g[t]), tol)

JudgeExact(e) ==
  LET K == Len(e.refs)  M == Len(e.ests)  L == e.L  T == e.T
      sr == TLCEval([k \in 1..K |-> IF e.zm THEN Centre(e.refs[k], T) ELSE e.refs[k]])
      se == TLCEval([m \in 1..M |-> IF e.zm THEN Centre(e.ests[m], T) ELSE e.ests[m]])
      efs == TLCEval([m \in 1..M |-> SigFcn(se[m])])
      rfs == TLCEval([k \in 1..K |-> SigFcn(sr[k])])
      dr == TLCEval([k \in 1..K |-> [t \in 1..T |-> Get(rfs[k], t - 1)]])
      de == TLCEval([m \in 1..M |-> [t \in 1..T |-> Get(efs[m], t - 1)]])
      E == TLCEval([m \in 1..M |-> Energy(se[m])])
      dnS == IF L = 1 THEN 0 ELSE e.dn
      refused == \E i \in 1..Len(e.calls) : e.calls[i].out = "raise:ValueError"
      pairs == IF refused THEN (1..K) \X (1..M)
               ELSE { <<e.calls[i].k, e.calls[i].m>> : i \in { i \in 1..Len(e.calls) : e.calls[i].out = "ok" } }
      badcert == \/ \E p \in pairs : CertKind(<<sr[p[1]]>>, efs[p[2]], E[p[2]], L, dnS, e.dd, e.cs[p[1]][p[2]].D, e.cs[p[1]][p[2]].h) # "exact"
                 \/ \E p \in pairs : CertKind(sr, efs[p[2]], E[p[2]], L, e.dn, e.dd, e.cj[p[2]].D, e.cj[p[2]].h) # "exact"
      Cen(g) == IF e.zm THEN Centred(g, T) ELSE g
      NS == TLCEval([p \in pairs |-> CohNum(<<sr[p[1]]>>, efs[p[2]], L, e.cs[p[1]][p[2]].h)])
      NJ == TLCEval([p \in pairs |-> CohNum(sr, efs[p[2]], L, e.cj[p[2]].h)])
      SE == TLCEval([p \in pairs |-> TLCEval(Cen(GradE(<<dr[p[1]]>>, de[p[2]], T, L, e.cs[p[1]][p[2]].D, e.cs[p[1]][p[2]].h, E[p[2]], NS[p])))])
      SR == TLCEval([p \in pairs |-> TLCEval(Cen(GradR(<<dr[p[1]]>>, de[p[2]], T, L, e.cs[p[1]][p[2]].D, e.cs[p[1]][p[2]].h, dnS, e.dd)[1]))])
      JE == TLCEval([p \in pairs |-> TLCEval(Cen(GradE(dr, de[p[2]], T, L, e.cj[p[2]].D, e.cj[p[2]].h, E[p[2]], NJ[p])))])
      JR == TLCEval([p \in pairs |-> LET g == TLCEval(GradR(dr, de[p[2]], T, L, e.cj[p[2]].D, e.cj[p[2]].h, e.dn, e.dd)) IN
                       TLCEval([k \in 1..K |-> TLCEval(Cen(g[k]))])])
      Ds(p) == e.cs[p[1]][p[2]].D
      Dj(p) == e.cj[p[2]].D
      EE(p) == Big(E[p[2]])
      \* square cosine of the metric as num/den
      CNum(c, p) == CASE c.metric = "sdr" -> NS[p] [] c.metric = "sar" -> NJ[p] [] OTHER -> BigMul(NS[p], Dj(p))
      CDen(c, p) == CASE c.metric = "sdr" -> BigMul(Ds(p), EE(p)) [] c.metric = "sar" -> BigMul(Dj(p), EE(p)) [] OTHER -> BigMul(Ds(p), NJ[p])
      \* ratio of SIR from <<num,den>> of the derivatives of both square cosines
      SirG(p, ns, ds, nj, dj) ==
        << BigMul(BigMul(EE(p), Dj(p)),
                  BigSub(BigMul(BigMul(ns, Ds(p)), BigMul(NJ[p], dj)), BigMul(BigMul(NS[p], Dj(p)), BigMul(nj, ds)))),
           BigMul(BigMul(ds, Ds(p)), BigMul(BigMul(NJ[p], dj), NJ[p])) >>
      dSE(p) == BigMul(Ds(p), BigMul(EE(p), EE(p)))
      dJE(p) == BigMul(Dj(p), BigMul(EE(p), EE(p)))
      dSR(p) == BigScale(BigMul(BigMul(Ds(p), Ds(p)), EE(p)), e.dd)
      dJR(p) == BigScale(BigMul(BigMul(Dj(p), Dj(p)), EE(p)), e.dd)
      ExpE(c, p, t) == CASE c.metric = "sdr" -> <<SE[p][t], dSE(p)>> [] c.metric = "sar" -> <<JE[p][t], dJE(p)>>
                         [] OTHER -> SirG(p, SE[p][t], dSE(p), JE[p][t], dJE(p))
      ExpR(c, p, k, s) == CASE c.metric = "sdr" -> (IF k = p[1] THEN <<SR[p][s], dSR(p)>> ELSE <<BigZero, <<1>>>>)
                            [] c.metric = "sar" -> <<JR[p][k][s], dJR(p)>>
                            [] OTHER -> SirG(p, IF k = p[1] THEN SR[p][s] ELSE BigZero, dSR(p), JR[p][k][s], dJR(p))
      JudgeCall(c) ==
        IF c.out = "skip" THEN <<>>
        \* scores of both infinities are refused
        ELSE IF c.out = "raise:ValueError" /\ c.form \in {"bss", "perm", "pit"} /\ \E p \in pairs : NS[p] = BigZero THEN <<>>
        ELSE IF c.out # "ok" THEN <<c.out>>
        ELSE LET p == <<c.k, c.m>>
                 tol == Tol12(c, e.ck)
                 n == CNum(c, p)  d == CDen(c, p)
                 \* clamping bounds in units of 10^-15, with a band of no judgement around them
                 out == c.clamp > 0 /\ (\/ BigLt(BigMul(n, One15), BigMul(BigSub(c.clo, BigTen(11)), d))
                                        \/ BigLt(BigMul(BigAdd(c.chi, BigTen(11)), d), BigMul(n, One15)))
                 in == c.clamp = 0 \/ (/\ BigLt(BigMul(BigAdd(c.clo, BigTen(11)), d), BigMul(n, One15))
                                       /\ BigLt(BigMul(n, One15), BigMul(BigSub(c.chi, BigTen(11)), d)))
                 \* infinite, or within the rounding of it: nothing is promised
                 wild == \/ BigLt(BigMul(n, BigTen(4)), d) \/ BigLt(BigMul(BigSub(d, n), BigTen(4)), d)
                 others == /\ \A m \in 1..M : m # c.m => AllZero(c.ge[m], <<0>>)
                           /\ c.rest = 0
             IN IF out THEN If((\A m \in 1..M : AllZero(c.ge[m], <<0>>)) /\ (\A k \in 1..K : AllZero(c.gr[k], <<0>>)), "clamped")
                ELSE IF ~in \/ wild THEN <<>>
                ELSE If(c.fin, "finite") \o
                     IF ~c.fin THEN <<>> ELSE
                     If(others, "others") \o
                     If(c.wrt = "ref" \/ \A t \in 1..T : LET x == ExpE(c, p, t) IN Near12(c.ge[c.m][t], x[1], x[2], tol), "est") \o
                     If(c.wrt = "est" \/ \A k \in 1..K : \A s \in 1..T : LET x == ExpR(c, p, k, s) IN Near12(c.gr[k][s], x[1], x[2], tol), "ref")
      verdicts == TLCEval([i \in 1..Len(e.calls) |-> TLCEval(JudgeCall(e.calls[i]))])
      bad == { i \in 1..Len(e.calls) : verdicts[i] # <<>> }
  IN IF badcert THEN [st |-> "cert", id |-> e.id]
     ELSE IF bad = {} THEN [st |-> "ok", id |-> e.id]
     ELSE [st |-> "bad", id |-> e.id, calls |-> SetToSeq({ [call |-> i, clauses |-> verdicts[i]] : i \in bad })]

(* ---- plain ------------------------------------------------------------------- *)
(* c.dd  derivative along the direction, c.fd  difference quotient (10^-8 dB)        *)
(* c.sc  the sum of absolute contributions to dd (10^-8 dB), scale of its rounding  *)
(* c.eul  largest |<g,x>| / (|g||x|) over the channels (10^-9), c.sum likewise with  *)
(* the constant signal, c.val  the metric in micro-dB at the three points           *)
(* c.same  the three points have the same assignment                                *)
Rel(c) == IF c.dt = "f32" THEN 2 ELSE IF c.cg > 0 THEN 40 ELSE 0        \* thousandths
JudgePlain(e) ==
  LET JudgeCall(c) ==
        IF c.out = "skip" THEN <<>>
        \* scores of both infinities are refused
        ELSE IF c.out = "raise:ValueError" /\ e.cls # "dense" /\ c.form \in {"bss", "perm", "pit"} THEN <<>>
        ELSE IF c.out # "ok" THEN <<c.out>>
        ELSE LET cl == c.clamp * 1000000
                 out == c.clamp > 0 /\ \A i \in 1..3 : AbsI(c.raw[i]) > cl + 1000
                 in == c.clamp = 0 \/ \A i \in 1..3 : AbsI(c.raw[i]) < cl - 1000
                 \* beyond 35 dB the derivatives are not compared, only required to be finite
                 wild == \E i \in 1..3 : AbsI(c.raw[i]) > 35000000
                 tame == \A i \in 1..3 : AbsI(c.raw[i]) < 55000000
                 tol == 400 + (c.sc \div 100000) + (IF Rel(c) > 0 THEN (c.sc \div 1000) * Rel(c) + 100000 ELSE 0)
             IN IF ~c.same THEN <<>>
                ELSE IF out THEN If(c.zero, "clamped")
                ELSE IF ~in THEN <<>>
                ELSE IF wild THEN If(c.fin \/ ~tame, "finite")
                ELSE If(c.fin, "finite") \o
                     IF ~c.fin THEN <<>> ELSE
                     If(AbsI(c.dd - c.fd) <= tol, "derivative") \o
                     If(c.eul <= (IF c.dt = "f32" THEN 200000 ELSE 1000), "scale") \o
                     If(e.zm => c.sum <= (IF c.dt = "f32" THEN 200000 ELSE 1000), "mean") \o
                     If(c.rest = 0, "others")
      verdicts == TLCEval([i \in 1..Len(e.calls) |-> TLCEval(JudgeCall(e.calls[i]))])
      bad == { i \in 1..Len(e.calls) : verdicts[i] # <<>> }
  IN IF bad = {} THEN [st |-> "ok", id |-> e.id]
     ELSE [st |-> "bad", id |-> e.id, calls |-> SetToSeq({ [call |-> i, clauses |-> verdicts[i]] : i \in bad })]

Init == ev \in 1..Len(Trace) /\ verdict = [st |-> "pending"]
Judge == /\ verdict.st = "pending"
         /\ verdict' = IF Trace[ev].exact THEN JudgeExact(Trace[ev]) ELSE JudgePlain(Trace[ev])
         /\ PrintT(ToJson(verdict'))
         /\ UNCHANGED ev
Next == Judge
Spec == Init /\ [][Next]_vars
=============================================================================
