---------------------------- MODULE SessionTrace ----------------------------
(***************************************************************************)
(* Validation of recorded sessions.                                         *)
(*                                                                         *)
(* A session is a history of calls on views of the same scenes (signals).   *)
(* A scene has, for each setting q (filter length, mean removal, loading),  *)
(* one true value per pair and per estimate, learned at the start of the    *)
(* session from the plainest call of the library (its agreement with the    *)
(* definition is the business of ExactTrace):                               *)
(*     P[r][e]  SDR of estimate e for reference r                           *)
(*     S[r][e]  SIR                                                         *)
(*     A[e]     SAR                                                         *)
(* every value being recorded twice, as a square cosine in units of 10^-9   *)
(* and in micro-decibels.  A view (gains, polarity, order of the channels,  *)
(* zero padding, offsets when means are removed, place in a batch, memory   *)
(* layout, back end, precision, solver, which function of the family) must  *)
(* not change the true values: each later call is accepted only if it       *)
(* returns them, for the pairs it returns, and selects these pairs well.    *)
(*                                                                         *)
(* State: the position in the session and memo, what the same call returned *)
(* earlier (the library must have no memory, so that it returns the same).  *)
(***************************************************************************)
EXTENDS Assignment, Json, IOUtils, TLC

Worlds == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES w, i, memo, verdict
vars == <<w, i, memo, verdict>>

G == 1000000000
INFU == 2000000000
AbsI(x) == IF x < 0 THEN -x ELSE x
MinI(a, b) == IF a < b THEN a ELSE b
MaxI(a, b) == IF a > b THEN a ELSE b
Ten(k) == CASE k = 0 -> 1 [] k = 1 -> 10 [] k = 2 -> 100 [] k = 3 -> 1000 [] OTHER -> 10000

(* ---- tolerances --------------------------------------------------------- *)
\* c(1-c), in units of 10^-9
CC(c) == (c \div 31623) * ((G - c) \div 31623)
\* rounding of the direct solution, amplified by the condition number 10^ck
\* (and, in single precision, by the length of the sums)
Tol9(cl, ck) == IF cl.dt = "f32" THEN MinI((4000 + cl.len) * Ten(ck), 300000000) ELSE 4
\* the iterations stall at a residual energy of 10^-6: 2*10^-4 on square cosines,
\* and a tenth of a decibel (0.1*ln(10)/10 = 0.023)
CgTol9(c) == 200000 + (CC(c) \div 1000) * 23
TolP(cl, ck, c) == Tol9(cl, ck) + (IF cl.cg > 0 THEN CgTol9(c) ELSE 0)
\* an error t on sdr and sar becomes an error 2t/sar on sir = sdr/sar
TolS(cl, ck, c, a) ==
  LET r == (G \div MaxI(a, 1000)) + 1
      t == 2 * Tol9(cl, ck)
  IN (IF t > G \div r THEN G ELSE t * r) + (IF cl.cg > 0 THEN 2 * CgTol9(c) + (2 * 200 * r) * 1000 ELSE 0) + 4
\* in micro-decibels: 4.343 * t / (c(1-c))
DbTol(t, c) ==
  LET cc == MaxI(CC(c), 1)
      p == IF t <= 2000000 THEN (t * 1000) \div cc ELSE t \div ((cc \div 1000) + 1)   \* thousandths
  IN IF p > 30000 THEN 140000000 ELSE (p + 1) * 4343

\* double precision direct solutions are also compared in decibels (0.001 dB)
Sharp(cl, u) == cl.dt # "f32" /\ cl.cg = 0 /\ AbsI(u) <= 50000000

(* ---- expected values ------------------------------------------------------ *)
\* v = <<c, u>>; clamping at +-cl.clu micro-decibels (none when negative), square cosines cl.clo, cl.chi
Clamped(cl, v) ==
  IF cl.clu < 0 THEN v
  ELSE <<MaxI(cl.clo, MinI(cl.chi, v[1])), MaxI(-cl.clu, MinI(cl.clu, v[2]))>>
Metric(cl, v) == IF cl.neg THEN <<G - v[1], -v[2]>> ELSE v
InRange(cl, v) == cl.clu < 0 \/ AbsI(v[2]) <= cl.clu + 200 + (IF cl.dt = "f32" THEN 2 * (cl.clu \div 1000000) ELSE 0)

Agrees(cl, obs, true, tol) ==
  /\ obs[1] >= 0
  /\ InRange(cl, obs)
  /\ LET o == Metric(cl, obs)
         t == Clamped(cl, true)
     IN /\ AbsI(o[1] - t[1]) <= tol
        /\ Sharp(cl, t[2]) => AbsI(o[2] - t[2]) <= 1000

(* ---- selection ------------------------------------------------------------ *)
\* pairs <<r, e>> (positions in the view) behind a returned permutation
PairsOf(cl, perm) ==
  LET K == Len(cl.rs)  M == Len(cl.es)  N == MinI(K, M) IN
  [n \in 1..N |-> IF K <= M THEN <<n, perm[n] + 1>> ELSE <<perm[n] + 1, n>>]
PermValid(cl, perm) ==
  LET K == Len(cl.rs)  M == Len(cl.es)  N == MinI(K, M) IN
  /\ Len(perm) = N
  /\ \A n \in 1..N : perm[n] \in 0..(MaxI(K, M) - 1)
  /\ \A a, b \in 1..N : a # b => perm[a] # perm[b]

\* evaluated once by TLC
Inj == TLCEval([ab \in {x \in (1..4) \X (1..6) : x[1] <= x[2]} |-> TLCEval(Injections(ab[1], ab[2]))])

SumPairs(f, ps) == FoldLeft(LAMBDA a, p : a + f[p[1]][p[2]], 0, ps)
\* no assignment is better than the returned one, beyond the uncertainty of the scores
Optimal(cl, Sc, Er, perm, dual) ==
  LET K == Len(cl.rs)  M == Len(cl.es)
      lo == TLCEval([r \in 1..K |-> [e \in 1..M |-> Sc[r][e] - Er[r][e]]])
      hi == TLCEval([r \in 1..K |-> [e \in 1..M |-> Sc[r][e] + Er[r][e]]])
      mine == SumPairs(hi, PairsOf(cl, perm))
  IN IF \E r \in 1..K : \E e \in 1..M : AbsI(Sc[r][e]) > 140000000 THEN TRUE
     ELSE IF MinI(K, M) <= 4 /\ MaxI(K, M) <= 6
     THEN \A f \in Inj[<<MinI(K, M), MaxI(K, M)>>] :
            SumPairs(lo, [n \in 1..MinI(K, M) |-> IF K <= M THEN <<n, f[n]>> ELSE <<f[n], n>>]) <= mine
     ELSE \* a dual solution bounds the value of every assignment
          LET worst == FoldLeft(LAMBDA a, r : MaxI(a, FoldLeft(LAMBDA b, x : MaxI(b, x), 0, Er[r])), 0, [r \in 1..K |-> r])
              neg == TLCEval([r \in 1..K |-> [e \in 1..M |-> -Sc[r][e]]])
          IN IF worst > 40000000 THEN TRUE    \* scores known to 40 dB only: nothing to compare
             ELSE /\ Assert(Len(dual.u) = K /\ Len(dual.v) = M /\ DualFeasible(neg, K, M, dual.u, dual.v),
                            <<"dual certificate", K, M>>)
                  /\ SumPairs(Sc, PairsOf(cl, perm)) + 2 * MinI(K, M) * worst + 100 >= -DualValue(dual.u, dual.v)

(* ---- one call -------------------------------------------------------------- *)
If(b, s) == IF b THEN <<>> ELSE <<s>>

JudgeItem(W, cl, it, n) ==
  LET K == Len(it.rs)
      M == Len(it.es)
      N == MinI(K, M)
      sc == W.scenes[it.scene]
      q == sc.q[cl.q]
      ck == W.ck[cl.q]
      Pt(r, e) == q.P[it.rs[r]][it.es[e]]
      St(r, e) == q.S[it.rs[r]][it.es[e]]
      At(e) == q.A[it.es[e]]
      SdrOk(v, r, e) == Agrees(cl, v, Pt(r, e), TolP(cl, ck, Pt(r, e)[1]))
      SirOk(v, r, e) == Agrees(cl, v, St(r, e), TolS(cl, ck, St(r, e)[1], At(e)[1]))
      SarOk(v, e) == Agrees(cl, v, At(e), TolP(cl, ck, At(e)[1]))
      view == [rs |-> it.rs, es |-> it.es]
      ScoreP == TLCEval([r \in 1..K |-> [e \in 1..M |-> Clamped(cl, Pt(r, e))[2]]])
      ScoreS == TLCEval([r \in 1..K |-> [e \in 1..M |-> Clamped(cl, St(r, e))[2]]])
      ErrP == TLCEval([r \in 1..K |-> [e \in 1..M |->
                IF Sharp(cl, Pt(r, e)[2]) THEN 1000 ELSE 1000 + DbTol(TolP(cl, ck, Pt(r, e)[1]), Pt(r, e)[1])]])
      ErrS == TLCEval([r \in 1..K |-> [e \in 1..M |->
                IF Sharp(cl, St(r, e)[2]) THEN 1000 ELSE 1000 + DbTol(TolS(cl, ck, St(r, e)[1], At(e)[1]), St(r, e)[1])]])
      pr == IF cl.form \in {"perm", "bss"} /\ PermValid(view, it.perm) THEN PairsOf(view, it.perm) ELSE <<>>
  IN CASE cl.form = "pair" ->
            If(Len(it.sdr) = K /\ \A r \in 1..K : Len(it.sdr[r]) = M /\ \A e \in 1..M : SdrOk(it.sdr[r][e], r, e), "sdr")
       [] cl.form = "diag" ->
            If(Len(it.sdr) = K /\ \A r \in 1..K : SdrOk(it.sdr[r], r, r), "sdr")
       [] cl.form = "pit" ->
            \* the permutation is not returned: some well selected one must explain the values
            If(Len(it.sdr) = N /\
               IF N <= 4 /\ MaxI(K, M) <= 6
               THEN \E f \in Inj[<<N, MaxI(K, M)>>] :
                      LET perm == [a \in 1..N |-> f[a] - 1]
                          ps == PairsOf(view, perm)
                      IN /\ \A a \in 1..N : SdrOk(it.sdr[a], ps[a][1], ps[a][2])
                         /\ Optimal(view, ScoreP, ErrP, perm, it.dual)
               ELSE \A a \in 1..N : \E b \in 1..MaxI(K, M) :
                      SdrOk(it.sdr[a], IF K <= M THEN a ELSE b, IF K <= M THEN b ELSE a), "sdr")
       [] cl.form = "perm" ->
            IF ~PermValid(view, it.perm) THEN <<"perm">>
            ELSE If(Len(it.sdr) = N /\ \A a \in 1..N : SdrOk(it.sdr[a], pr[a][1], pr[a][2]), "sdr") \o
                 If(Optimal(view, ScoreP, ErrP, it.perm, it.dual), "selection")
       [] cl.form = "bss" ->
            IF ~PermValid(view, it.perm) THEN <<"perm">>
            ELSE If(Len(it.sdr) = N /\ \A a \in 1..N : SdrOk(it.sdr[a], pr[a][1], pr[a][2]), "sdr") \o
                 If(Len(it.sir) = N /\ \A a \in 1..N : SirOk(it.sir[a], pr[a][1], pr[a][2]), "sir") \o
                 If(Len(it.sar) = N /\ \A a \in 1..N : SarOk(it.sar[a], pr[a][2]), "sar") \o
                 If(Optimal(view, ScoreS, ErrS, it.perm, it.dual), "selection")
       [] cl.form = "bssdiag" ->
            If(Len(it.sdr) = K /\ \A a \in 1..K : SdrOk(it.sdr[a], a, a), "sdr") \o
            If(Len(it.sir) = K /\ \A a \in 1..K : SirOk(it.sir[a], a, a), "sir") \o
            If(Len(it.sar) = K /\ \A a \in 1..K : SarOk(it.sar[a], a), "sar")
       [] OTHER -> <<"unknown form">>

\* purity of one call: everything is recorded before and after
PureClauses(cl) ==
  If(cl.argb = cl.arga, "mutated argument") \o
  If(cl.stb = cl.sta, "global state") \o
  If(~cl.alias, "aliased result") \o
  If(~cl.printed, "printed")

JudgeCall(W, cl) ==
  IF cl.out # cl.want THEN <<"outcome " \o cl.out>> \o PureClauses(cl)
  ELSE IF cl.out # "ok" THEN PureClauses(cl)
  ELSE FoldLeft(LAMBDA a, n : a \o JudgeItem(W, cl, cl.items[n], n), <<>>, [n \in 1..Len(cl.items) |-> n])
       \o PureClauses(cl)
       \o (IF cl.key # "" /\ cl.key \in DOMAIN memo THEN If(memo[cl.key] = cl.dig, "history") ELSE <<>>)

(* ---- the learned values themselves (scenes are settings of increasing strength) *)
\* ordering and energy identities are in OrderTrace

Init == /\ w \in 1..Len(Worlds) /\ i = 0 /\ memo = <<>> /\ verdict = <<>>
Step ==
  /\ i < Len(Worlds[w].calls)
  /\ LET cl == Worlds[w].calls[i + 1]
         v == JudgeCall(Worlds[w], cl)
     IN /\ verdict' = v
        /\ (v # <<>> => PrintT(ToJson([st |-> "bad", id |-> Worlds[w].id, call |-> i + 1, clauses |-> SetToSeq(ToSet(v))])))
        /\ memo' = IF cl.key # "" /\ cl.key \notin DOMAIN memo THEN memo @@ (cl.key :> cl.dig) ELSE memo
        /\ i' = i + 1
        /\ (i + 1 = Len(Worlds[w].calls) => PrintT(ToJson([st |-> "done", id |-> Worlds[w].id, n |-> i + 1])))
  /\ UNCHANGED w
Spec == Init /\ [][Step]_vars
=============================================================================
