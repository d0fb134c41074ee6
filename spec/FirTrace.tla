------------------------------ MODULE FirTrace ------------------------------
(***************************************************************************)
(* What the distortion filter forgives, on long signals: an estimate made   *)
(* of taps inside the filter of its reference has an (almost) infinite SDR,  *)
(* one made of taps inside the filters of all references an (almost)        *)
(* infinite SAR, and a dominant tap outside (a delay of L samples or more,  *)
(* an advance) is a distortion.  The taps of an estimate must not cancel:    *)
(* the plan's gains on equal delays may, which the driver reports (energy). *)
(***************************************************************************)
EXTENDS FirSignals, FiniteSets, Json, IOUtils, TLC

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES ev, verdict

\* micro-decibels above which a metric is almost infinite
High(dt) == IF dt = "f32" THEN 45000000 ELSE 100000000
\* below which it is certainly a distortion
Low == 15000000

If(b, s) == IF b THEN <<>> ELSE <<s>>
MinI(a, b) == IF a < b THEN a ELSE b

JudgeLine(e) ==
  LET K == e.K
      probesOk == \A i \in 1..Len(e.probes) :
                    LET p == e.probes[i] IN
                    IF p[1] = "r" THEN p[4] = RefAt(e.refs[p[2]], e.lead, e.tail, e.T, p[3])
                    ELSE p[4] = EstAt(e.ests[p[2]], e.refs, e.lead, e.tail, e.T, p[3])
      \* nothing falls off the frame
      fits == \A m \in 1..K : \A i \in 1..Len(e.ests[m]) :
                 e.ests[m][i][2] <= e.tail /\ e.ests[m][i][2] >= -e.lead
      Val(c, v) == IF c.neg THEN -v[2] ELSE v[2]
      SdrOk(c, v, k, m) ==
        /\ v[1] >= 0
        /\ ForgivenBy(e.ests[m], k, e.L) => Val(c, v) >= High(c.dt)
        /\ Outlaw(e.ests[m], e.L) => Val(c, v) <= Low
      SarOk(c, v, m) ==
        /\ v[1] >= 0
        /\ ForgivenByAll(e.ests[m], e.L) => Val(c, v) >= High(c.dt)
        /\ Outlaw(e.ests[m], e.L) => Val(c, v) <= Low
      \* SDR almost infinite means SIR almost infinite
      SirOk(c, v, k, m) == v[1] >= 0 /\ (ForgivenBy(e.ests[m], k, e.L) => Val(c, v) >= High(c.dt) - 3000000)
      PermOk(c) == Len(c.perm) = K /\ { c.perm[i] : i \in 1..Len(c.perm) } = 0..(K-1)
      JudgeCall(c) ==
        IF c.out # "ok" THEN <<c.out>>
        ELSE CASE c.form = "pair" -> If(\A k \in 1..K : \A m \in 1..K : SdrOk(c, c.sdr[k][m], k, m), "sdr")
               [] c.form = "diag" -> If(\A k \in 1..K : SdrOk(c, c.sdr[k], k, k), "sdr")
               [] c.form = "perm" -> IF ~PermOk(c) THEN <<"perm">>
                                     ELSE If(\A k \in 1..K : SdrOk(c, c.sdr[k], k, c.perm[k] + 1), "sdr")
               \* each estimate is used once: as many almost infinite values as an assignment has
               [] c.form = "pit" -> If(\E f \in [1..K -> 1..K] : /\ \A i, j \in 1..K : i # j => f[i] # f[j]
                                                                 /\ \A k \in 1..K : SdrOk(c, c.sdr[k], k, f[k]), "sdr")
               [] c.form = "bss" -> IF ~PermOk(c) THEN <<"perm">>
                                    ELSE If(\A k \in 1..K : SdrOk(c, c.sdr[k], k, c.perm[k] + 1), "sdr") \o
                                         If(\A k \in 1..K : SirOk(c, c.sir[k], k, c.perm[k] + 1), "sir") \o
                                         If(\A k \in 1..K : SarOk(c, c.sar[k], c.perm[k] + 1), "sar")
               [] c.form = "bssdiag" -> If(\A k \in 1..K : SdrOk(c, c.sdr[k], k, k), "sdr") \o
                                        If(\A k \in 1..K : SirOk(c, c.sir[k], k, k), "sir") \o
                                        If(\A k \in 1..K : SarOk(c, c.sar[k], k), "sar")
      v == TLCEval([i \in 1..Len(e.calls) |-> JudgeCall(e.calls[i])])
      bad == { i \in 1..Len(e.calls) : v[i] # <<>> }
  IN IF ~probesOk \/ ~fits THEN [st |-> "cert", id |-> e.id]
     ELSE IF bad = {} THEN [st |-> "ok", id |-> e.id]
     ELSE [st |-> "bad", id |-> e.id, calls |-> SetToSeq({ [call |-> i, clauses |-> v[i]] : i \in bad })]

Init == ev \in 1..Len(Trace) /\ verdict = [st |-> "pending"]
Next == /\ verdict.st = "pending" /\ verdict' = JudgeLine(Trace[ev])
        /\ PrintT(ToJson(verdict')) /\ UNCHANGED ev
Spec == Init /\ [][Next]_<<ev, verdict>>
=============================================================================
