------------------------------ MODULE GradPlan ------------------------------
(* Generator of the back-propagations judged by GradTrace. *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json, IOUtils

N == atoi(IOEnv.N)
BIG == atoi(IOEnv.BIG)
Pick(S) == RandomElement(S)
PickSeq(s) == s[RandomElement(1..Len(s))]
F(fn, form, neg, si) == [fn |-> fn, form |-> form, neg |-> neg, si |-> si]
Funcs == <<
  F("bss_eval_sources", "bss", FALSE, FALSE), F("bss_eval_sources", "bss", FALSE, FALSE), F("bss_eval_sources", "bssdiag", FALSE, FALSE),
  F("sdr", "perm", FALSE, FALSE), F("sdr", "perm", TRUE, FALSE), F("sdr", "pit", FALSE, FALSE),
  F("sdr_loss", "pair", TRUE, FALSE), F("sdr_loss", "diag", TRUE, FALSE), F("sdr_pit_loss", "pit", TRUE, FALSE),
  F("pairwise_sdr_loss", "pair", TRUE, FALSE) >>
SiFuncs == <<
  F("si_bss_eval_sources", "bss", FALSE, TRUE), F("si_bss_eval_sources", "bssdiag", FALSE, TRUE),
  F("si_sdr", "perm", FALSE, TRUE), F("si_sdr", "perm", TRUE, TRUE), F("si_sdr", "pit", FALSE, TRUE),
  F("si_sdr_loss", "pair", TRUE, TRUE), F("si_sdr_loss", "diag", TRUE, TRUE), F("si_sdr_pit_loss", "pit", TRUE, TRUE),
  F("pairwise_si_sdr_loss", "pair", TRUE, TRUE) >>
NoLoad == {"si_sdr", "si_sdr_loss", "si_sdr_pit_loss", "pairwise_si_sdr_loss"}
Batches == << <<>>, <<>>, <<1>>, <<2>>, <<2, 2>>, <<3>> >>

Line(i) ==
  LET exact == i % 2 = 0
      L == IF exact THEN PickSeq(<<1, 1, 2, 2, 3>>)
           ELSE IF i % BIG = 1 THEN PickSeq(<<64, 100, 128, 512>>) ELSE PickSeq(<<1, 2, 3, 4, 7, 8, 16, 20>>)
      K == IF L >= 64 THEN PickSeq(<<1, 2>>) ELSE IF L = 3 THEN PickSeq(<<1, 2, 2>>) ELSE PickSeq(<<1, 2, 2, 3>>)
      M == IF L >= 64 THEN K ELSE PickSeq(<<1, 2, 2, 3, K, K, K>>)
      T == IF exact THEN K * L + PickSeq(<<3, 4, 5, 6, 8>>) ELSE IF L >= 64 THEN 3 * K * L + Pick(10..200) ELSE 40 + 2 * K * L + Pick(0..40)
      zm == Pick(1..4) = 1
      ld == PickSeq(<< <<0, 1>>, <<0, 1>>, <<0, 1>>, <<1, 10>>, <<1, 100>> >>)
      fs == SelectSeq(Funcs \o (IF L = 1 THEN SiFuncs ELSE <<>>),
                      LAMBDA f : /\ f.form \in {"diag", "bssdiag"} => K = M
                                 /\ ld[1] > 0 => f.fn \notin NoLoad
                                 \* the choice among estimates by SIR means nothing with one reference
                                 /\ f.form = "bss" => (K > 1 \/ M = 1))
  IN [id |-> i, exact |-> exact, L |-> L, K |-> K, M |-> M, T |-> T, zm |-> zm, dn |-> ld[1], dd |-> ld[2],
      cls |-> IF L = 1 /\ ~exact THEN PickSeq(<<"dense", "dense", "disjoint", "faint">>) ELSE PickSeq(<<"dense", "dense", "dense", "disjoint", "close">>),
      calls |-> TLCEval([j \in 1..(IF L >= 64 THEN 3 ELSE 8) |-> PickSeq(fs) @@
                 [dt |-> IF j % 4 = 0 THEN "f32" ELSE "f64",
                  cg |-> IF L > 1 /\ Pick(1..4) = 1 THEN PickSeq(<<20, 30>>) ELSE 0,
                  clamp |-> IF Pick(1..4) = 1 THEN PickSeq(<<3, 6, 10, 30>> \o (IF j % 4 = 0 THEN <<>> ELSE <<50, 60, 70>>)) ELSE 0,
                  batch |-> PickSeq(Batches), gain |-> PickSeq(<<"unit", "mixed", "neg">>),
                  wrt |-> PickSeq(<<"both", "both", "both", "est", "ref">>), lay |-> PickSeq(<<"c", "c", "stride2", "swap">>)]])]

ASSUME ndJsonSerialize(IOEnv.PLAN, TLCEval([i \in 1..N |-> TLCEval(Line(i))]))
VARIABLE dummy
Init == dummy = 0
Next == FALSE /\ UNCHANGED dummy
=============================================================================
