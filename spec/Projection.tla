----------------------------- MODULE Projection -----------------------------
(***************************************************************************)
(* The definition of the metrics, exactly, on integer signals.             *)
(*                                                                         *)
(* A signal is a record [p, v] of positions (0-based, increasing) and      *)
(* values of its non-zero samples, so that both short dense signals and    *)
(* long sparse ones are covered by one text.  The metrics of an estimate e *)
(* with respect to references r_1..r_K and a distortion filter of L taps   *)
(* are ratios of energies of orthogonal projections of e on the span of    *)
(*      { r_k delayed by l : k in 1..K, l in 0..L-1 } .                    *)
(* A projection is never computed here: somebody (not trusted) supplies    *)
(* filters h_k / D as integers and the specification checks that they are  *)
(* the projection, i.e. that the residual is orthogonal to every delayed   *)
(* reference.  The signals can be multiplied by any gains: the ratios do   *)
(* not change (theorem Gain in Views).                              *)
(*                                                                         *)
(* Certificates are accepted in two forms:                                 *)
(*   exact        every inner product with the residual is zero;           *)
(*   approximate  the inner products are below 10^-14 and the Gram matrix  *)
(*                is diagonally dominant with margin >= 100: the coherence *)
(*                is then known with an error below 10^-13 (Cauchy-Schwarz *)
(*                with the smallest eigenvalue >= the margin).             *)
(***************************************************************************)
EXTENDS BigInt, Integers, Sequences, SequencesExt, FiniteSets, TLC

SumSeq(s) == FoldLeft(LAMBDA a, x : a + x, 0, s)
Idx(n) == [i \in 1..n |-> i]

\* value at t of a signal
SigFcn(s) == FoldLeft(LAMBDA f, i : f @@ (s.p[i] :> s.v[i]), <<>>, Idx(Len(s.p)))
Get(f, t) == IF t \in DOMAIN f THEN f[t] ELSE 0

Energy(s) == SumSeq([i \in 1..Len(s.v) |-> s.v[i] * s.v[i]])

\* T times the signal minus its mean, over a frame of T samples
Centre(s, T) ==
  LET f == TLCEval(SigFcn(s))
      m == SumSeq(s.v)
  IN [p |-> [i \in 1..T |-> i - 1], v |-> [i \in 1..T |-> T * Get(f, i - 1) - m]]

\* cross-correlation of reference r and estimate e at the lags 0..L-1
XCorr(r, ef, L) ==
  [l \in 1..L |-> SumSeq([i \in 1..Len(r.p) |-> r.v[i] * Get(ef, r.p[i] + l - 1)])]

AbsI(x) == IF x < 0 THEN -x ELSE x

(* ---- certificates ---------------------------------------------------- *)
(* refs : sequence of signals;  h[k] : sequence (limb index) of sequences   *)
(* (lag + 1) of integers;  D : big integer > 0;  dn/dd : diagonal loading.  *)

LimbVec(hk, j, i) == IF j <= Len(hk) THEN hk[j][i] ELSE 0

\* D*e - sum_k h_k * r_k, on the samples where some delayed reference is non-zero
Residual(refs, ef, L, D, h) ==
  LET nl == FoldLeft(LAMBDA a, hk : MaxN(a, Len(hk)), Len(D), h)
      Dom == UNION { { refs[k].p[i] + l : l \in 0..(L-1) } :
                     <<k, i>> \in { <<k, i>> \in (1..Len(refs)) \X (1..FoldLeft(LAMBDA a, r : MaxN(a, Len(r.p)), 0, refs)) :
                                    i <= Len(refs[k].p) } }
      Conv(k, j, t) == SumSeq([i \in 1..Len(refs[k].p) |->
                         LET l == t - refs[k].p[i] IN
                         IF l >= 0 /\ l < L THEN refs[k].v[i] * LimbVec(h[k], j, l + 1) ELSE 0])
  IN [t \in Dom |-> Norm([j \in 1..nl |->
        Limb(D, j) * Get(ef, t) - SumSeq([k \in 1..Len(refs) |-> Conv(k, j, t)])])]

\* inner product of the residual with reference r delayed by l
Inner(r, res, l) ==
  LET n == FoldLeft(LAMBDA a, i : MaxN(a, Len(res[r.p[i] + l])), 1, Idx(Len(r.p)))
  IN Norm([j \in 1..n |-> SumSeq([i \in 1..Len(r.p) |-> r.v[i] * Limb(res[r.p[i] + l], j)])])

ScaleAny(a, k) == IF k <= 2000000 THEN BigScale(a, k) ELSE BigMul(a, Big(k))
\* dd * (normal equation l of reference k), zero for the exact solution
NormalEq(r, res, l, hk, dn, dd) ==
  LET g == Inner(r, res, l)
      n2 == Energy(r)
      hl == Norm([j \in 1..Len(hk) |-> hk[j][l + 1]])
  IN IF dn = 0 THEN g ELSE BigSub(ScaleAny(g, dd), BigMul(BigScale(hl, dn), Big(n2)))

\* lower bound of the smallest eigenvalue of the Gram matrix (Gershgorin)
Margin(refs, L) ==
  LET Cross(k, m) == SumSeq([i \in 1..Len(refs[k].p) |->
        SumSeq([j \in 1..Len(refs[m].p) |->
          IF AbsI(refs[k].p[i] - refs[m].p[j]) < L /\ ~(k = m /\ i = j)
          THEN AbsI(refs[k].v[i] * refs[m].v[j]) ELSE 0])])
      Row(k) == Energy(refs[k]) - SumSeq([m \in 1..Len(refs) |-> Cross(k, m)])
  IN FoldLeft(LAMBDA a, k : IF Row(k) < a THEN Row(k) ELSE a, Row(1), Idx(Len(refs)))

\* "exact", "close" or "bad"
CertKind(refs, ef, e2, L, dn, dd, D, h) ==
  LET res == TLCEval(Residual(refs, ef, L, D, h))
      eqs == TLCEval([k \in 1..Len(refs) |-> [l \in 1..L |-> NormalEq(refs[k], res, l - 1, h[k], dn, dd)]])
      Exact == \A k \in 1..Len(refs) : \A l \in 1..L : BigIsZero(eqs[k][l])
      Close == /\ e2 >= 100
               /\ Margin(refs, L) >= 100
               /\ \A k \in 1..Len(refs) : \A l \in 1..L :
                     BigLeq(BigMul(BigAbs(eqs[k][l]), BigTen(14)), ScaleAny(D, dd))
  IN IF BigSign(D) <= 0 THEN "bad" ELSE IF Exact THEN "exact" ELSE IF Close THEN "close" ELSE "bad"

\* numerator of the coherence x.h / (D e.e)
CohNum(refs, ef, L, h) ==
  LET Term(k, l) == Norm([j \in 1..Len(h[k]) |-> h[k][j][l]])
      Part(k) == LET xs == TLCEval(XCorr(refs[k], ef, L)) IN
                 FoldLeft(LAMBDA a, l : IF xs[l] = 0 THEN a ELSE BigAdd(a, BigMul(Term(k, l), Big(xs[l]))),
                          BigZero, Idx(L))
  IN FoldLeft(LAMBDA a, k : BigAdd(a, Part(k)), BigZero, Idx(Len(refs)))

(* ---- observed values -------------------------------------------------- *)
(* c : observed coherence in units of 10^-15 (big integer).                *)
(* |c*10^-15 - num/den| <= tol*10^-15                                       *)
Near(c, num, den, tol) ==
  BigLeq(BigAbs(BigSub(BigMul(c, den), BigMul(num, BigTen(15)))), BigMul(tol, den))
=============================================================================
