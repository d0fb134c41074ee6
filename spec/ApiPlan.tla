------------------------------ MODULE ApiPlan -------------------------------
(***************************************************************************)
(* Generator of calls on abstract slot signals (see Pipeline): the product  *)
(* of functions, back ends, types, batch shapes, channel counts, filter     *)
(* lengths and options, with ordinary and degenerate channels.              *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json, IOUtils

PROP == IOEnv.PROP
N == atoi(IOEnv.N)
BIG == atoi(IOEnv.BIG)        \* every BIG-th call has the default filter length

Pick(S) == RandomElement(S)
PickSeq(s) == s[RandomElement(1..Len(s))]
SumS(s) == FoldLeft(LAMBDA a, x : a + x, 0, s)
F(fn, form, neg, si) == [fn |-> fn, form |-> form, neg |-> neg, si |-> si]
Funcs == <<
  F("bss_eval_sources", "bss", FALSE, FALSE), F("bss_eval_sources", "bssdiag", FALSE, FALSE),
  F("sdr", "perm", FALSE, FALSE), F("sdr", "perm", TRUE, FALSE), F("sdr", "pit", FALSE, FALSE), F("sdr", "pit", TRUE, FALSE),
  F("sdr_loss", "pair", TRUE, FALSE), F("sdr_loss", "diag", TRUE, FALSE), F("sdr_pit_loss", "pit", TRUE, FALSE),
  F("pairwise_sdr_loss", "pair", TRUE, FALSE),
  F("si_bss_eval_sources", "bss", FALSE, TRUE), F("si_bss_eval_sources", "bssdiag", FALSE, TRUE),
  F("si_sdr", "perm", FALSE, TRUE), F("si_sdr", "perm", TRUE, TRUE), F("si_sdr", "pit", FALSE, TRUE), F("si_sdr", "pit", TRUE, TRUE),
  F("si_sdr_loss", "pair", TRUE, TRUE), F("si_sdr_loss", "diag", TRUE, TRUE), F("si_sdr_pit_loss", "pit", TRUE, TRUE),
  F("pairwise_si_sdr_loss", "pair", TRUE, TRUE) >>

Loads == << <<1, 4>>, <<1, 10>>, <<1, 100>>, <<1, 1000>> >>
Batches == << <<>>, <<>>, <<1>>, <<3>>, <<2, 2>>, <<2>>, <<1, 1>>, <<2, 1, 3>>, <<5>>, <<1, 2, 1, 2>> >>

(* ---- items --------------------------------------------------------------- *)
Vec(v) == [kind |-> "vec", v |-> v]
Generic(D) == TLCEval([s \in 1..D |-> Pick((-4)..4)])
Only(D, s, a) == [x \in 1..D |-> IF x = s THEN a ELSE 0]
SafeVec(v, K) == \E s \in 1..K : v[s] # 0       \* some trace of a reference

\* flavour: what an item is made of
Est(flavour, D, K, m) ==
  LET a == PickSeq(<<-4, -2, -1, 1, 2, 4>>)
      own == IF m <= K THEN m ELSE Pick(1..K)
      g == Generic(D)
  IN CASE flavour = "generic" -> Vec([g EXCEPT ![own] = IF @ = 0 THEN 3 ELSE @])
       [] flavour = "exact" -> PickSeq(<< Vec(Only(D, own, a)), Vec(Only(D, own, a)), Vec([Only(D, own, a) EXCEPT ![Pick(1..D)] = 1]) >>)
       [] flavour = "allexact" -> Vec(Only(D, own, a))
       [] flavour = "orthogonal" -> Vec([g EXCEPT ![own] = 0])
       [] flavour = "artefact" -> Vec(Only(D, Pick((K+1)..D), a))
       [] flavour = "shuffled" -> Vec(Only(D, Pick(1..K), a))
       [] flavour = "tie" -> Vec([x \in 1..D |-> IF x <= K THEN 1 ELSE 2])
       [] flavour = "flat" -> Vec([x \in 1..D |-> IF x <= K THEN Pick({1, -1}) ELSE IF x = D THEN PickSeq(<<0, 2>>) ELSE 0])
       [] flavour = "silent" -> PickSeq(<< Vec(Only(D, 1, 0)), Vec(g), Vec(Only(D, own, a)) >>)
       [] flavour = "mixed" -> PickSeq(<< Vec(Only(D, own, a)), Vec(g), Vec(Only(D, Pick(1..D), a)), Vec([g EXCEPT ![own] = 0]) >>)
       [] OTHER -> Vec(g)

Flavours(form) ==
  CASE PROP = "C10" -> <<"generic", "generic", "generic", "generic", "exact", "mixed", "tie">>
    [] PROP = "C12" -> <<"generic", "generic", "exact", "mixed", "silent">>
    [] OTHER -> <<"generic", "exact", "exact", "allexact", "orthogonal", "orthogonal", "artefact", "shuffled", "tie", "flat", "silent", "mixed", "mixed">>

Item(cfg, poison) ==
  LET D == cfg.K + 2
      bss == cfg.form \in {"bss", "bssdiag"}
      silentOk == IF bss THEN cfg.dn > 0 ELSE cfg.L = 1 \/ cfg.dn > 0
      pSilent == IF PROP = "C12" THEN 2 ELSE IF PROP = "C10" THEN 40 ELSE 8
      dup == ~bss /\ cfg.K > 1 /\ Pick(1..6) = 1
      slots == TLCEval([k \in 1..cfg.K |-> IF dup /\ k > 1 /\ Pick(1..2) = 1 THEN k - 1 ELSE k])
      refs == TLCEval([k \in 1..cfg.K |-> [kind |-> IF silentOk /\ Pick(1..pSilent) = 1 THEN "silent" ELSE "slot", slot |-> slots[k]]])
      fl == PickSeq(Flavours(cfg.form))
      ests == TLCEval([m \in 1..cfg.M |-> TLCEval(Est(fl, D, cfg.K, m))])
      what == PickSeq(<<"nan", "inf", "neginf">>)
      side == Pick(1..2)
      chan == IF side = 1 THEN Pick(1..cfg.K) ELSE Pick(1..cfg.M)
      twin == cfg.M > 1 /\ Pick(1..7) = 1        \* two equal estimates
      ests2 == IF twin THEN [ests EXCEPT ![cfg.M] = ests[1]] ELSE ests
  IN [refs |-> IF poison /\ side = 1 THEN [refs EXCEPT ![chan].kind = IF what = "nan" THEN "nan" ELSE "inf"] ELSE refs,
      ests |-> IF poison /\ side = 2 THEN [ests2 EXCEPT ![chan].kind = IF what = "nan" THEN "nan" ELSE "inf"] ELSE ests2,
      dc |-> IF cfg.zm /\ cfg.L < 512 THEN PickSeq(<<0, 1, -3>>) ELSE 0]

Line(i) ==
  LET f == PickSeq(Funcs)
      L == IF f.si THEN 1 ELSE IF i % BIG = 0 THEN 512 ELSE PickSeq(<<1, 1, 2, 2, 3, 4, 5, 8, 16, 17>>)
      be == IF f.fn = "x" THEN "np" ELSE PickSeq(<<"np", "pt">>)
      dt == IF be = "np" THEN PickSeq(<<"f32", "f64", "f32", "f64", PickSeq(<<"i16", "i32", "i64">>)>>) ELSE PickSeq(<<"f32", "f64">>)
      same == f.form = "diag" \/ (f.form = "bssdiag" /\ Pick(1..5) # 1)
      K == IF L = 512 THEN PickSeq(<<1, 2>>) ELSE PickSeq(<<1, 2, 2, 2, 3, 3, 4>>)
      M == IF same THEN K ELSE IF L = 512 THEN PickSeq(<<1, 2>>) ELSE PickSeq(<<1, 2, 2, 2, 3, 3, 4, 5>>)
      loadable == f.fn \in {"bss_eval_sources", "si_bss_eval_sources", "sdr", "sdr_loss", "sdr_pit_loss", "pairwise_sdr_loss"}
      ld == IF loadable /\ (PROP = "C12" \/ Pick(1..4) = 1) THEN PickSeq(Loads) ELSE <<0, 1>>
      zm == Pick(1..4) = 1
      cgable == ~f.si /\ dt # "x"
      cg == IF cgable /\ PROP # "C14" /\ Pick(1..4) = 1 THEN PickSeq(<<10, 20, 30>>) ELSE 0
      clamp == IF PROP = "C09" \/ Pick(1..4) = 1 THEN PickSeq(<<10, 20, 30, 40, 60, 80, 100>>) ELSE 0
      batch == PickSeq(IF PROP = "C10" THEN Batches ELSE << <<>>, <<2>>, <<2, 2>>, <<1>>, <<3>> >>)
      refused == f.form = "bssdiag" /\ K # M
      b == IF refused /\ 0 \in { batch[x] : x \in 1..Len(batch) } THEN <<2>> ELSE batch
      cfg == TLCEval([fn |-> f.fn, form |-> f.form, neg |-> f.neg, K |-> K, M |-> M, L |-> L, cg |-> cg, zm |-> zm,
              dn |-> ld[1], dd |-> ld[2], clamp |-> clamp, exact |-> (L = 1 /\ ~zm), be |-> be, dt |-> dt, batch |-> b,
              \* the state of the process around the call and of the arguments, of which outputs are independent
              amb |-> [err |-> PickSeq(<<"warn", "warn", "ignore", "mixed">>), tdt |-> PickSeq(<<"f32", "f32", "f64">>),
                       grad |-> PickSeq(<<TRUE, TRUE, FALSE>>), inf |-> Pick(1..6) = 1],
              rg |-> PickSeq(<<"no", "no", "no", "est", "ref", "both">>)])
      n == FoldLeft(LAMBDA x, y : x * y, 1, b)
      pOdds == IF PROP = "C14" THEN 3 ELSE IF PROP = "C12" THEN 1000 ELSE 12
      canPoison == dt \in {"f32", "f64"} /\ f.form # "bssdiag" /\ (f.form \in {"bss", "perm", "pit"} \/ cg = 0) /\ ~refused /\ n > 0
      pj == IF canPoison /\ Pick(1..pOdds) = 1 THEN Pick(1..n) ELSE 0
  IN [id |-> i, cfg |-> cfg, items |-> TLCEval([j \in 1..n |-> TLCEval(Item(cfg, j = pj))])]

ASSUME ndJsonSerialize(IOEnv.PLAN, TLCEval([i \in 1..N |-> TLCEval(Line(i))]))
VARIABLE dummy
Init == dummy = 0
Next == FALSE /\ UNCHANGED dummy
=============================================================================
