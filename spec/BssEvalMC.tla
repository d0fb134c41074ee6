----------------------------- MODULE BssEvalMC ------------------------------
(* Model checking of the pipeline on all small abstract signals. *)
EXTENDS BssEval
CONSTANTS MaxCoef, Ks, Ms, Clamps

Coef == -1..MaxCoef
\* slots 1..K belong to references, slot K+1 to nobody
Refs(K) == [1..K -> {"slot", "silent", "nan"}]
MkRefs(f, K) == [k \in 1..K |-> [kind |-> f[k], slot |-> k]]
Ests(K) == { [kind |-> "vec", v |-> v] : v \in [1..(K + 1) -> Coef] } \cup { [kind |-> "nan", v |-> [i \in 1..(K+1) |-> 1]] }
Items(K, M) == { [refs |-> MkRefs(f, K), ests |-> es] : <<f, es>> \in Refs(K) \X [1..M -> Ests(K)] }
Forms == {"pair", "diag", "perm", "bss", "bssdiag"}
Cfg(form, K, M, L, dn, cl) == [form |-> form, K |-> K, M |-> M, L |-> L, dn |-> dn, dd |-> 10, clamp |-> cl, exact |-> L = 1, cg |-> 0, dt |-> "f64"]

Init == /\ \E K \in Ks, M \in Ms, form \in Forms, L \in {1, 2}, dn \in {0, 1}, cl \in Clamps :
             /\ form = "diag" => K = M
             /\ cfg = Cfg(form, K, M, L, dn, cl)
        /\ item \in Items(cfg.K, cfg.M)
        \* a silent reference makes the system singular unless it is loaded
        /\ \A k \in 1..cfg.K : item.refs[k].kind = "silent" => cfg.dn > 0 \/ (cfg.L = 1 /\ ~IsBss(cfg))
        /\ phase = "check" /\ cosS = <<>> /\ cosJ = <<>> /\ cosI = <<>> /\ out = [kind |-> "none"]
Spec == Init /\ [][PNext]_pvars /\ WF_pvars(PNext)

Clean == /\ \A k \in 1..cfg.K : ~Poisoned(item.refs[k])
         /\ \A m \in 1..cfg.M : ~Poisoned(item.ests[m])
Leq(a, b) == a.n * b.d <= b.n * a.d
Unit(x) == x.t = "rat" => x.n >= 0 /\ x.n <= x.d /\ x.d > 0
Vals(x) == IF cfg.form = "pair" THEN { x[k][m] : k \in 1..cfg.K, m \in 1..cfg.M } ELSE { x[n] : n \in 1..Len(x) }

InRange == phase = "done" /\ out.kind = "ok" =>
             (\A x \in Vals(out.sdr) : Unit(x)) /\ \A n \in 1..Len(out.sir) : Unit(out.sir[n]) /\ Unit(out.sar[n])
\* a finite item never gives NaN but for the SIR of an estimate without any trace of a reference
NoNaN == phase = "done" /\ out.kind = "ok" /\ Clean =>
             (\A x \in Vals(out.sdr) : x.t = "rat") /\ \A n \in 1..Len(out.sar) : out.sar[n].t = "rat"
PermNoNaN == phase = "done" /\ out.kind = "ok" /\ SelectsPerm(cfg) => \A x \in Vals(out.sdr) : x.t # "nan"
\* sdr = sir * sar, hence sdr <= sir and sdr <= sar (without loading)
Product == phase = "done" /\ out.kind = "ok" /\ cfg.dn = 0 =>
             \A n \in 1..Len(out.sir) : out.sir[n].t = "rat" /\ out.sdr[n].t = "rat" /\ out.sar[n].t = "rat" =>
                /\ out.sdr[n].n * out.sir[n].d * out.sar[n].d = out.sdr[n].d * out.sir[n].n * out.sar[n].n
                /\ Leq(out.sdr[n], out.sir[n]) /\ Leq(out.sdr[n], out.sar[n])
\* the full metrics and the SDR functions see the same SDR
SingleRef == phase = "done" /\ out.kind = "ok" /\ cfg.K = 1 /\ cfg.dn = 0 =>
             \A n \in 1..Len(out.sir) : out.sir[n].t = "rat" => IsOne(out.sir[n])
PoisonRefused == phase = "done" /\ SelectsPerm(cfg) /\ ~Clean => out.kind = "raise" /\ out.exc = "ValueError"
PoisonLocal == phase = "done" /\ out.kind = "ok" /\ cfg.form = "pair" =>
             \A k \in 1..cfg.K, m \in 1..cfg.M : out.sdr[k][m].t = "nan" <=> Poisoned(item.refs[k]) \/ Poisoned(item.ests[m])
Unequal == phase = "done" /\ cfg.form = "bssdiag" /\ cfg.K # cfg.M => out.kind = "raise" /\ out.exc = "AssertionError"
OnlyThese == phase = "done" => out.kind = "ok" \/ out.exc \in {"ValueError", "AssertionError"}
PermShape == phase = "done" /\ out.kind = "ok" /\ SelectsPerm(cfg) =>
             /\ Len(out.perm) = MinI(cfg.K, cfg.M)
             /\ \A a, b \in 1..Len(out.perm) : a # b => out.perm[a] # out.perm[b]
             /\ \A a \in 1..Len(out.perm) : out.perm[a] \in 0..(MaxI(cfg.K, cfg.M) - 1)
NotStuck == phase # "done" => ENABLED PNext
Terminates == <>(phase = "done")
=============================================================================
