------------------------------- MODULE Views --------------------------------
(***************************************************************************)
(* The definition of the metrics as a system: a scene (references, an       *)
(* estimate, a filter length, a diagonal loading) and the transformations   *)
(* a user may apply to it.  TLC visits every small scene and every          *)
(* transformation, with projections computed by Cramer's rule; what is      *)
(* assumed by the conformance specifications (SessionTrace: views do not    *)
(* change the values; OrderTrace: nested subspaces; FirTrace: forgiven      *)
(* filters; Projection: certificates) are the properties checked here.      *)
(***************************************************************************)
EXTENDS Projection

CONSTANTS T0, Vals, Lmax, Ks, Loads, Steps, Full

Tern == {-1, 0, 1}
Bin == {0, 1}
Quat == {-1, 0, 1, 2}
NoLoad == {<<0, 1>>}
SomeLoad == {<<0, 1>>, <<1, 4>>}
\* own, all: the projections of the estimate on the first reference and on all of them
VARIABLES refs, est, L, ld, n, kind, own, all
vars == <<refs, est, L, ld, n, kind, own, all>>

(* ---- linear algebra on small integer matrices ------------------------------ *)
Minor(A, i, j) ==
  [a \in 1..(Len(A) - 1) |-> [b \in 1..(Len(A) - 1) |-> A[IF a < i THEN a ELSE a + 1][IF b < j THEN b ELSE b + 1]]]
RECURSIVE Det(_)
Det(A) == IF Len(A) = 0 THEN 1
          ELSE IF Len(A) = 1 THEN A[1][1]
          ELSE SumSeq([j \in 1..Len(A) |-> IF A[1][j] = 0 THEN 0
                         ELSE (IF j % 2 = 1 THEN 1 ELSE -1) * A[1][j] * Det(Minor(A, 1, j))])
\* det(A) * A^-1 * x
Cramer(A, x) ==
  [j \in 1..Len(A) |-> SumSeq([i \in 1..Len(A) |->
     IF x[i] = 0 THEN 0 ELSE (IF (i + j) % 2 = 0 THEN 1 ELSE -1) * x[i] * Det(Minor(A, i, j))])]

(* ---- dense signals ----------------------------------------------------------- *)
Delay(s, l, N) == [t \in 1..N |-> IF t - l >= 1 /\ t - l <= Len(s) THEN s[t - l] ELSE 0]
Dot(a, b) == SumSeq([t \in 1..Len(a) |-> a[t] * b[t]])
Columns(R, len) ==
  LET N == Len(R[1]) + len - 1 IN
  [i \in 1..(Len(R) * len) |-> Delay(R[((i - 1) \div len) + 1], (i - 1) % len, N)]
GramOf(cs) == [i \in 1..Len(cs) |-> [j \in 1..Len(cs) |-> Dot(cs[i], cs[j])]]
\* the loading is relative to the energy of each reference: dd*G + dn*diag(|r|^2)
Loaded(R, len, G, q) ==
  [i \in 1..Len(G) |-> [j \in 1..Len(G) |-> q[2] * G[i][j] +
     (IF i = j THEN q[1] * Dot(R[((i - 1) \div len) + 1], R[((i - 1) \div len) + 1]) ELSE 0)]]

\* [D, h, num, den] of the projection of e: the square cosine is num/den
Proj(R, e, len, q) ==
  LET cs == TLCEval(Columns(R, len))
      A == TLCEval(Loaded(R, len, GramOf(cs), q))
      x == TLCEval([i \in 1..Len(cs) |-> Dot(cs[i], Delay(e, 0, Len(cs[i])))])
      D == Det(A)
      h == TLCEval([i \in 1..Len(cs) |-> q[2] * Cramer(A, x)[i]])
  IN [D |-> D, h |-> h, num |-> SumSeq([i \in 1..Len(x) |-> h[i] * x[i]]), den |-> D * Dot(e, e)]

Eq(a, b) == BigMul(Big(a.num), Big(b.den)) = BigMul(Big(b.num), Big(a.den))
Le(a, b) == BigLeq(BigMul(Big(a.num), Big(b.den)), BigMul(Big(b.num), Big(a.den)))
One(a) == a.num = a.den

\* the projections are part of the state
Solve == /\ own' = Proj(<<refs'[1]>>, est', L', ld')
         /\ all' = Proj(refs', est', L', ld')
         /\ all'.D > 0

(* ---- transformations ----------------------------------------------------------- *)
Map(s, f(_)) == [t \in 1..Len(s) |-> f(s[t])]
Init ==
  /\ \E K \in Ks : refs \in [1..K -> [1..T0 -> Vals]]
  /\ est \in [1..T0 -> Vals]
  /\ L \in 1..Lmax
  /\ ld \in Loads
  /\ n = 0 /\ kind = "scene"
  /\ Dot(est, est) > 0
  /\ own = Proj(<<refs[1]>>, est, L, ld) /\ all = Proj(refs, est, L, ld) /\ all.D > 0

Do(k) == n < Steps /\ n' = n + 1 /\ kind' = k
GainEst == /\ Do("view") /\ \E g \in {-2, 3} : est' = Map(est, LAMBDA x : g * x)
           /\ UNCHANGED <<refs, L, ld>>
GainRef == /\ Do("view") /\ \E k \in 1..Len(refs) : \E g \in {-3, 2} : refs' = [refs EXCEPT ![k] = Map(@, LAMBDA x : g * x)]
           /\ UNCHANGED <<est, L, ld>>
Pad == /\ Do("view")
       /\ \E p \in {<<0, 1>>, <<1, 0>>, <<1, 2>>} :
            LET P(s) == [t \in 1..(p[1] + Len(s) + p[2]) |-> IF t > p[1] /\ t <= p[1] + Len(s) THEN s[t - p[1]] ELSE 0]
            IN est' = P(est) /\ refs' = [k \in 1..Len(refs) |-> P(refs[k])]
       /\ UNCHANGED <<L, ld>>
\* relabelling of the other references
Relabel == /\ Do("view") /\ Len(refs) > 2
           /\ refs' = [refs EXCEPT ![2] = refs[3], ![3] = refs[2]]
           /\ UNCHANGED <<est, L, ld>>
Lengthen == /\ Do("longer") /\ L' = L + 1 /\ ld = <<0, 1>>
            /\ UNCHANGED <<refs, est, ld>>
AddRef == /\ Do("more") /\ ld = <<0, 1>> /\ Len(refs) < 2
          /\ \E r \in [1..Len(est) -> Vals] : refs' = Append(refs, r)
          /\ UNCHANGED <<est, L, ld>>
Load == /\ Do("load") /\ \E q \in {<<1, 2>>, <<1, 10>>} : ld' = q
        /\ ld = <<0, 1>>
        /\ UNCHANGED <<refs, est, L>>
Next == (GainEst \/ GainRef \/ Pad \/ Relabel \/ Lengthen \/ AddRef \/ Load) /\ Solve
Spec == Init /\ [][Next]_vars

(* ---- properties ------------------------------------------------------------------ *)
\* square cosines
Bounded == own.num >= 0 /\ own.num <= own.den /\ all.num >= 0 /\ all.num <= all.den
\* sdr <= sar, so that sir = sdr/sar is a square cosine
Nested == ld = <<0, 1>> => Le(own, all)
\* views change nothing
ViewsPreserve == [][kind' = "view" => Eq(own', own) /\ Eq(all', all)]_vars
\* longer filters, more references: larger subspaces
Monotone == [][kind' \in {"longer", "more"} => Le(own, own') /\ Le(all, all')]_vars
\* loading only takes away
LoadShrinks == [][kind' = "load" => Le(own', own)]_vars
\* three orthogonal components (only without loading)
Pieces ==
  ld = <<0, 1>> =>
  LET cs == TLCEval(Columns(refs, L))
      N == Len(cs[1])
      DS == own.D  DJ == all.D
      e == Delay(est, 0, N)
      comb(h, k0) == [t \in 1..N |-> SumSeq([i \in 1..Len(h) |-> h[i] * cs[i + k0][t]])]
      pt == TLCEval(comb(own.h, 0))      \* DS * target
      pj == TLCEval(comb(all.h, 0))      \* DJ * projection on all
      interf == TLCEval([t \in 1..N |-> DS * pj[t] - DJ * pt[t]])
      artif == TLCEval([t \in 1..N |-> DJ * e[t] - pj[t]])
  IN /\ Dot(pt, interf) = 0
     /\ \A i \in 1..Len(cs) : Dot(cs[i], artif) = 0
     \* sdr = |target|^2 / |e - target|^2 in terms of the square cosine
     /\ Eq([num |-> Dot(pt, pt), den |-> DS * DS * Dot(e, e)], own)
     /\ Eq([num |-> Dot(pj, pj), den |-> DJ * DJ * Dot(e, e)], all)
\* estimates that the filter of the first reference realises are forgiven, by the
\* filter of all references likewise, and only these
Span(R, e, len) ==
  LET cs == Columns(R, len)  N == Len(cs[1])  p == Proj(R, e, len, <<0, 1>>) IN
  \A t \in 1..N : SumSeq([i \in 1..Len(cs) |-> p.h[i] * cs[i][t]]) = p.D * Delay(e, 0, N)[t]
Forgiven == ld = <<0, 1>> => (One(own) <=> Span(<<refs[1]>>, est, L)) /\ (One(all) <=> Span(refs, est, L))
\* the certificates of Projection: the solution is accepted, others are rejected
Sparse(s) == LET ps == SelectSeq([t \in 1..Len(s) |-> t], LAMBDA t : s[t] # 0) IN
             [p |-> [i \in 1..Len(ps) |-> ps[i] - 1], v |-> [i \in 1..Len(ps) |-> s[ps[i]]]]
Certificates ==
  Full =>
  LET rs == [k \in 1..Len(refs) |-> Sparse(refs[k])]
      ef == TLCEval(SigFcn(Sparse(est)))
      e2 == Dot(est, est)
      h(d) == [k \in 1..Len(refs) |-> << [l \in 1..L |-> all.h[(k - 1) * L + l] + (IF k = 1 /\ l = L THEN d ELSE 0)] >>]

  IN /\ CertKind(rs, ef, e2, L, ld[1], ld[2], Big(all.D), h(0)) = "exact"
     /\ \A d \in {-1, 1} : CertKind(rs, ef, e2, L, ld[1], ld[2], Big(all.D), h(d)) = "bad"
     /\ BigMul(CohNum(rs, ef, L, h(0)), <<1>>) = Big(all.num)
=============================================================================
