------------------------------ MODULE Pipeline ------------------------------
(***************************************************************************)
(* The stages of an evaluation on abstract signals (run by BssEval).         *)
(*                                                                         *)
(* The signals live on slots 1..D: blocks of samples so far apart that no   *)
(* delayed copy of one reaches another.  A reference occupies one slot      *)
(* (or is silent, or holds a NaN or an infinite sample); an estimate is an  *)
(* integer combination of the slots, those that belong to no reference      *)
(* being artefacts.  All the projections are then known rationals, whatever *)
(* the filter length, and every degenerate situation (exact copies,         *)
(* orthogonal and silent channels, ties) is a matter of coefficients.       *)
(*                                                                         *)
(* cfg:  fn form neg K M L cg zm dn dd clamp ...   (see Api plan)           *)
(* item: refs : seq of [kind, slot]   kind: "slot" "silent" "nan" "inf"     *)
(*       ests : seq of [kind, v]      kind: "vec" "nan" "inf"               *)
(***************************************************************************)
EXTENDS BigInt, Integers, Sequences, SequencesExt, FiniteSets, TLC

AbsI(x) == IF x < 0 THEN -x ELSE x
MinI(a, b) == IF a < b THEN a ELSE b
MaxI(a, b) == IF a > b THEN a ELSE b
SumS(s) == FoldLeft(LAMBDA a, x : a + x, 0, s)

Rat(n, d) == [t |-> "rat", n |-> n, d |-> d]
NaNV == [t |-> "nan", n |-> 0, d |-> 1]
FreeV == [t |-> "free", n |-> 0, d |-> 1]     \* no promise is made
IsZero(x) == x.t = "rat" /\ x.n = 0
IsOne(x) == x.t = "rat" /\ x.n = x.d

SelectsPerm(cfg) == cfg.form \in {"bss", "perm", "pit"}
IsBss(cfg) == cfg.form \in {"bss", "bssdiag"}

(* ---- square cosines ------------------------------------------------------ *)
E2(e) == SumS([s \in 1..Len(e.v) |-> e.v[s] * e.v[s]])
Poisoned(x) == x.kind \in {"nan", "inf"}
Silent(e) == e.kind = "vec" /\ E2(e) = 0

\* with the reference alone: loading acts for filters longer than one
CosSdr(cfg, r, e) ==
  IF Poisoned(r) \/ Poisoned(e) THEN NaNV
  ELSE IF Silent(e) \/ r.kind = "silent" THEN Rat(0, 1)
  ELSE LET a == e.v[r.slot]
           dn == IF cfg.L = 1 THEN 0 ELSE cfg.dn
       IN Rat(a * a * cfg.dd, E2(e) * (cfg.dd + dn))

\* with all the references
CosSar(cfg, item, e) ==
  IF Poisoned(e) \/ \E k \in 1..Len(item.refs) : Poisoned(item.refs[k]) THEN NaNV
  ELSE IF Silent(e) THEN Rat(0, 1)
  ELSE LET on == { item.refs[k].slot : k \in { k \in 1..Len(item.refs) : item.refs[k].kind = "slot" } }
           a2 == SumS([s \in 1..Len(e.v) |-> IF s \in on THEN e.v[s] * e.v[s] ELSE 0])
       IN Rat(a2 * cfg.dd, E2(e) * (cfg.dd + cfg.dn))

\* the ratio of the two; 0/0 is undefined: exactly so for a silent estimate, up to the
\* rounding for one that is orthogonal to all references
CosSir(cfg, item, r, e) ==
  LET s == CosSdr(cfg, r, e)
      a == CosSar(cfg, item, e)
  IN IF s.t = "nan" \/ a.t = "nan" THEN NaNV
     ELSE IF Silent(e) THEN NaNV
     ELSE IF a.n = 0 THEN FreeV
     ELSE LET on == { item.refs[k].slot : k \in { k \in 1..Len(item.refs) : item.refs[k].kind = "slot" } }
              a2 == SumS([x \in 1..Len(e.v) |-> IF x \in on THEN e.v[x] * e.v[x] ELSE 0])
              n == (IF r.kind = "silent" THEN 0 ELSE e.v[r.slot] * e.v[r.slot]) * (IF cfg.L = 1 THEN cfg.dd + cfg.dn ELSE 1)
              d == a2 * (IF cfg.L = 1 THEN cfg.dd ELSE 1)
          IN IF n >= d THEN Rat(1, 1) ELSE Rat(n, d)     \* loading may push it above one

(* ---- selection ------------------------------------------------------------ *)
Score(cfg, item, k, m) ==
  IF IsBss(cfg) THEN CosSir(cfg, item, item.refs[k], item.ests[m])
  ELSE CosSdr(cfg, item.refs[k], item.ests[m])
Pairs(cfg) == (1..cfg.K) \X (1..cfg.M)

\* exact arithmetic of the implementation: scores that are certainly infinite
CertainLow(cfg, item, p) ==
  LET c == Score(cfg, item, p[1], p[2]) IN
  IsZero(c) /\ (cfg.exact \/ (~IsBss(cfg) /\ (Silent(item.ests[p[2]]) \/ item.refs[p[1]].kind = "silent")))
CertainHigh(cfg, item, p) ==
  /\ ~IsBss(cfg) /\ cfg.exact /\ cfg.dn = 0
  /\ IsOne(Score(cfg, item, p[1], p[2]))

\* NaN among the scores, or both infinities, must be refused
MustRefuse(cfg, item) ==
  /\ SelectsPerm(cfg)
  /\ \/ \E p \in Pairs(cfg) : Score(cfg, item, p[1], p[2]).t = "nan"
     \/ /\ cfg.clamp = 0
        /\ \E p \in Pairs(cfg) : CertainLow(cfg, item, p)
        /\ \E p \in Pairs(cfg) : CertainHigh(cfg, item, p)
MayRefuse(cfg, item) ==
  /\ SelectsPerm(cfg)
  /\ \/ MustRefuse(cfg, item)
     \/ \E p \in Pairs(cfg) : Score(cfg, item, p[1], p[2]).t = "free"
     \/ /\ cfg.clamp = 0
        /\ \E p \in Pairs(cfg) : IsZero(Score(cfg, item, p[1], p[2]))
        /\ \E p \in Pairs(cfg) : IsOne(Score(cfg, item, p[1], p[2]))

\* odds of the scores of a set of pairs: which are one, which are zero (infinite when they
\* are not clamped), and the product num/den of the finite ones (sums of decibels are
\* products of odds)
R10(c) == BigTen(c \div 10)
PairOdds(cfg, c) ==      \* <<num, den>> as big integers, clamped
  LET n == Big(c.n)  d == Big(c.d - c.n) IN
  IF cfg.clamp = 0 THEN <<n, d>>
  ELSE LET R == R10(cfg.clamp) IN
       IF BigLt(BigMul(d, R), n) THEN <<R, <<1>>>>
       ELSE IF BigLt(BigMul(n, R), d) THEN << <<1>>, R>>
       ELSE <<n, d>>
Odds(cfg, item, ps) ==
  FoldLeft(LAMBDA acc, p :
    LET c == Score(cfg, item, p[1], p[2]) IN
    IF cfg.clamp = 0 /\ IsOne(c) THEN [acc EXCEPT !.hi = @ \cup {p}]
    ELSE IF cfg.clamp = 0 /\ IsZero(c) THEN [acc EXCEPT !.lo = @ \cup {p}]
    ELSE LET o == PairOdds(cfg, c) IN [acc EXCEPT !.n = BigMul(@, o[1]), !.d = BigMul(@, o[2])],
    [hi |-> {}, lo |-> {}, n |-> <<1>>, d |-> <<1>>], ps)

\* the arithmetic gives exactly zero and one where the theory does
ExactMode(cfg) == cfg.exact /\ ~IsBss(cfg)
\* relative error on a product of odds, in thousandths
Margin(cfg) == IF cfg.cg > 0 THEN 500
               ELSE IF cfg.dt = "f32" THEN (IF cfg.clamp > 40 THEN 1000 ELSE 20)
               ELSE IF cfg.clamp > 80 THEN 100 ELSE 1
Worse(cfg, a, b) ==   \* a is certainly worse than b
  LET lhs == BigMul(a.n, b.d)
      rhs == BigMul(b.n, a.d)
      fin == BigLt(BigMul(lhs, Big(1000 + Margin(cfg))), BigMul(rhs, Big(1000)))
      near == cfg.dt # "f32" \/ BigLt(lhs, BigMul(rhs, Big(100000)))
      lo(x) == Cardinality(x.lo)
      hi(x) == Cardinality(x.hi)
  IN IF ExactMode(cfg)
     THEN \/ lo(a) > lo(b)
          \/ lo(a) = lo(b) /\ hi(a) < hi(b)
          \/ lo(a) = lo(b) /\ hi(a) = hi(b) /\ fin
     \* which of them come out infinite is a matter of rounding
     ELSE /\ b.lo \subseteq a.lo /\ a.hi \subseteq b.hi
          /\ IF b.lo = a.lo /\ a.hi = b.hi THEN fin ELSE near

PairsOfPerm(cfg, perm) ==
  [n \in 1..MinI(cfg.K, cfg.M) |-> IF cfg.K <= cfg.M THEN <<n, perm[n] + 1>> ELSE <<perm[n] + 1, n>>]
RECURSIVE InjSeq(_, _)
InjSeq(a, b) == IF a = 0 THEN { <<>> }
                ELSE { Append(s, j) : <<s, j>> \in { x \in InjSeq(a - 1, b) \X (0..(b-1)) : \A i \in 1..(a-1) : x[1][i] # x[2] } }
Perms(cfg) == InjSeq(MinI(cfg.K, cfg.M), MaxI(cfg.K, cfg.M))

\* the assignments that may be selected
Comparable(cfg, item) ==
  /\ \A p \in Pairs(cfg) : Score(cfg, item, p[1], p[2]).t = "rat"
  /\ cfg.clamp = 0 => ~(\E p \in Pairs(cfg) : IsZero(Score(cfg, item, p[1], p[2])) /\ \E q \in Pairs(cfg) : IsOne(Score(cfg, item, q[1], q[2])))
Selectable(cfg, item) ==
  IF ~Comparable(cfg, item) THEN Perms(cfg)
  ELSE LET od == TLCEval([f \in Perms(cfg) |-> TLCEval(Odds(cfg, item, PairsOfPerm(cfg, f)))])
       IN { f \in Perms(cfg) : ~\E g \in Perms(cfg) : Worse(cfg, od[f], od[g]) }

(* ---- shape of the outcome --------------------------------------------------- *)
Refused(cfg) == cfg.form = "bssdiag" /\ cfg.K # cfg.M
Arity(cfg) == CASE cfg.form = "bss" -> 4 [] cfg.form = "bssdiag" -> 3 [] cfg.form = "perm" -> 2 [] OTHER -> 1
TailShape(cfg) == CASE cfg.form = "pair" -> <<cfg.K, cfg.M>>
                    [] cfg.form \in {"diag", "bssdiag"} -> <<cfg.K>>
                    [] OTHER -> <<MinI(cfg.K, cfg.M)>>
FloatOf(dt) == CASE dt = "f32" -> "float32" [] OTHER -> "float64"
MetaOk(cfg, meta) ==
  /\ Len(meta) = Arity(cfg)
  /\ \A i \in 1..Len(meta) :
       /\ meta[i].cont = cfg.be
       /\ meta[i].shape = cfg.batch \o TailShape(cfg)
       /\ meta[i].dt = IF cfg.form \in {"bss", "perm"} /\ i = Len(meta) THEN "int64" ELSE FloatOf(cfg.dt)
=============================================================================
