------------------------------ MODULE BssEval -------------------------------
(***************************************************************************)
(* The pipeline as a state machine, for model checking: one call on one     *)
(* item, from the raw signals to the outcome.                               *)
(***************************************************************************)
EXTENDS Pipeline

VARIABLES cfg, item, phase, cosS, cosJ, cosI, out
pvars == <<cfg, item, phase, cosS, cosJ, cosI, out>>

PInit(Cfgs, Items) ==
  /\ cfg \in Cfgs
  /\ item \in Items /\ Len(item.refs) = cfg.K /\ Len(item.ests) = cfg.M
  /\ phase = "check" /\ cosS = <<>> /\ cosJ = <<>> /\ cosI = <<>> /\ out = [kind |-> "none"]

Check == /\ phase = "check"
         /\ IF Refused(cfg) THEN phase' = "done" /\ out' = [kind |-> "raise", exc |-> "AssertionError"]
            ELSE phase' = "project" /\ UNCHANGED out
         /\ UNCHANGED <<cfg, item, cosS, cosJ, cosI>>
Project == /\ phase = "project"
           /\ cosS' = [k \in 1..cfg.K |-> [m \in 1..cfg.M |-> CosSdr(cfg, item.refs[k], item.ests[m])]]
           /\ cosJ' = IF IsBss(cfg) THEN [m \in 1..cfg.M |-> CosSar(cfg, item, item.ests[m])] ELSE <<>>
           /\ phase' = "ratio" /\ UNCHANGED <<cfg, item, cosI, out>>
Ratio == /\ phase = "ratio"
         /\ cosI' = IF IsBss(cfg) THEN [k \in 1..cfg.K |-> [m \in 1..cfg.M |-> CosSir(cfg, item, item.refs[k], item.ests[m])]] ELSE <<>>
         /\ phase' = IF SelectsPerm(cfg) THEN "select" ELSE "emit"
         /\ UNCHANGED <<cfg, item, cosS, cosJ, out>>
Refuse == /\ phase = "select" /\ MayRefuse(cfg, item)
          /\ phase' = "done" /\ out' = [kind |-> "raise", exc |-> "ValueError"]
          /\ UNCHANGED <<cfg, item, cosS, cosJ, cosI>>
Select == /\ phase = "select" /\ ~MustRefuse(cfg, item)
          /\ \E f \in Selectable(cfg, item) :
               LET ps == PairsOfPerm(cfg, f) IN
               out' = [kind |-> "ok", perm |-> f,
                       sdr |-> [n \in 1..Len(ps) |-> cosS[ps[n][1]][ps[n][2]]],
                       sir |-> IF IsBss(cfg) THEN [n \in 1..Len(ps) |-> cosI[ps[n][1]][ps[n][2]]] ELSE <<>>,
                       sar |-> IF IsBss(cfg) THEN [n \in 1..Len(ps) |-> cosJ[ps[n][2]]] ELSE <<>>]
          /\ phase' = "done" /\ UNCHANGED <<cfg, item, cosS, cosJ, cosI>>
Emit == /\ phase = "emit"
        /\ out' = [kind |-> "ok", perm |-> <<>>,
                   sdr |-> IF cfg.form = "pair" THEN cosS ELSE [k \in 1..cfg.K |-> cosS[k][k]],
                   sir |-> IF IsBss(cfg) THEN [k \in 1..cfg.K |-> cosI[k][k]] ELSE <<>>,
                   sar |-> IF IsBss(cfg) THEN [k \in 1..cfg.K |-> cosJ[k]] ELSE <<>>]
        /\ phase' = "done" /\ UNCHANGED <<cfg, item, cosS, cosJ, cosI>>
PNext == Check \/ Project \/ Ratio \/ Refuse \/ Select \/ Emit
=============================================================================
