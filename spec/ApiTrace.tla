------------------------------ MODULE ApiTrace ------------------------------
(***************************************************************************)
(* Recorded calls against the pipeline: the machine BssEval is started on   *)
(* the configuration and the abstract signals of a call, and a record is    *)
(* accepted when one of its behaviours ends in what was observed.  A call   *)
(* on a batch is one start per item, plus one (j = 0) for the container,    *)
(* the number, the types and the shapes of the outputs.                     *)
(***************************************************************************)
EXTENDS BssEval, Json, IOUtils

Calls == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, j
G == 1000000000

(* ---- numbers ---------------------------------------------------------------- *)
\* n/d in units of 10^-9, n <= d < 2*10^8
Ratio9(n, d) ==
  IF n = d THEN G
  ELSE LET s == FoldLeft(LAMBDA a, i : <<a[1] * 10 + (a[2] * 10) \div d, (a[2] * 10) % d>>, <<0, n>>, [i \in 1..9 |-> i]) IN s[1]
CC(x) == (x \div 31623) * ((G - x) \div 31623)
Base(o) == (IF o.dt = "f32" THEN 4000 ELSE 4) + (IF o.cg > 0 THEN 200000 ELSE 0)
Tol(o, x) == Base(o) + (IF o.cg > 0 THEN (CC(x) \div 1000) * 23 ELSE 0)
High(o) == IF o.cg > 0 THEN 25000000 ELSE IF o.dt = "f32" THEN 50000000 ELSE 100000000

\* observed v = <<c9, micro-dB>> (of the metric, losses are negated by the driver's "neg")
Val(o, v) == IF o.neg THEN <<IF v[1] < 0 THEN -1 ELSE G - v[1], -v[2]>> ELSE v
Slack(o) == 200 + (IF o.dt = "f32" THEN 3 * (o.clu \div 1000000) ELSE 0)
\* distance allowed below the bound: one minus the bound is rounded in the coherence
Inner(o) == IF o.clu + 10000000 > High(o) THEN 500000 ELSE IF o.dt = "f32" /\ o.clu >= 40000000 THEN 6000 ELSE Slack(o)
Agrees(o, v0, x, scale) ==
  LET v == Val(o, v0) IN
  CASE x.t = "free" -> v[1] < 0 \/ o.clu = 0 \/ AbsI(v[2]) <= o.clu + Slack(o)
    [] x.t = "nan" -> v[1] < 0
    [] OTHER ->
       /\ v[1] >= 0
       /\ o.clu > 0 => AbsI(v[2]) <= o.clu + Slack(o)
       /\ IF x.n = 0 THEN IF o.clu > 0 /\ o.clu <= High(o) THEN v[2] <= -o.clu + Inner(o) ELSE v[2] <= -High(o)
          ELSE IF x.n = x.d THEN IF o.clu > 0 /\ o.clu <= High(o) THEN v[2] >= o.clu - Inner(o) ELSE v[2] >= High(o)
          ELSE LET r == Ratio9(x.n, x.d)
                   t == IF o.clu = 0 THEN r ELSE MaxI(o.clo, MinI(o.chi, r))
               IN AbsI(v[1] - t) <= Tol(o, r) * scale

\* an error on sar is amplified on sir = sdr / sar
SirScale(x) == IF x.t # "rat" \/ x.n = 0 THEN 1 ELSE MinI(2000, 3 * (x.d \div x.n) + 3)

Matches(o, ob) ==
  LET N == Len(out.sdr) IN
  IF out.kind # "ok" THEN FALSE
  ELSE CASE cfg.form = "pair" -> /\ Len(ob.sdr) = cfg.K
                                 /\ \A k \in 1..cfg.K : Len(ob.sdr[k]) = cfg.M /\ \A m \in 1..cfg.M : Agrees(o, ob.sdr[k][m], out.sdr[k][m], 1)
         [] OTHER ->
              /\ Len(ob.sdr) = N /\ \A n \in 1..N : Agrees(o, ob.sdr[n], out.sdr[n], 1)
              /\ cfg.form \in {"perm", "bss"} => ob.perm = out.perm
              /\ IsBss(cfg) => /\ Len(ob.sir) = N /\ \A n \in 1..N : Agrees(o, ob.sir[n], out.sir[n], SirScale(out.sar[n]))
                               /\ Len(ob.sar) = N /\ \A n \in 1..N : Agrees(o, ob.sar[n], out.sar[n], 1)

Init ==
  /\ c \in 1..Len(Calls)
  /\ j \in 0..Len(Calls[c].items)
  /\ cfg = Calls[c].cfg
  /\ item = IF j = 0 THEN <<>> ELSE Calls[c].items[j]
  /\ phase = IF j = 0 THEN "meta" ELSE "check"
  /\ cosS = <<>> /\ cosJ = <<>> /\ cosI = <<>> /\ out = [kind |-> "none"]

Say(how) == PrintT(ToJson([st |-> "accept", id |-> Calls[c].id, item |-> j, how |-> how]))
Meta ==
  /\ phase = "meta" /\ phase' = "over"
  /\ IF Calls[c].out = "ok"
     THEN IF MetaOk(cfg, Calls[c].meta) /\ (Calls[c].tup <=> Arity(cfg) > 1) THEN Say("meta") ELSE TRUE
     ELSE IF Refused(cfg) /\ Calls[c].out = "raise:AssertionError" THEN Say("raise") ELSE Say("meta")
  /\ UNCHANGED <<cfg, item, cosS, cosJ, cosI, out>>
Compare ==
  /\ phase = "done" /\ phase' = "over"
  /\ LET o == Calls[c] IN
     IF o.out = "ok"
     THEN (IF Matches(o, o.obs[j]) THEN Say("ok") ELSE TRUE)
     ELSE (IF out.kind = "raise" /\ o.out = "raise:" \o out.exc THEN Say("raise") ELSE TRUE)
  /\ UNCHANGED <<cfg, item, cosS, cosJ, cosI, out>>

Next == (PNext \/ Meta \/ Compare) /\ UNCHANGED <<c, j>>
Spec == Init /\ [][Next]_<<pvars, c, j>>
=============================================================================
