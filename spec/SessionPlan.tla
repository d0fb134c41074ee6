---------------------------- MODULE SessionPlan -----------------------------
(***************************************************************************)
(* Generator of sessions (see SessionTrace): sizes and settings of the      *)
(* scenes, and the history of calls on views of them.  The mix of views     *)
(* depends on the property that a check is after; the acceptance rule does  *)
(* not.                                                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json, IOUtils

PROP == IOEnv.PROP
N    == atoi(IOEnv.N)
NCALLS == atoi(IOEnv.NCALLS)
BIG == atoi(IOEnv.BIG)       \* every BIG-th session has long filters

Pick(S) == RandomElement(S)
PickSeq(s) == s[RandomElement(1..Len(s))]
MaxOf(a, b) == IF a > b THEN a ELSE b
MinOf(a, b) == IF a < b THEN a ELSE b

(* ---- functions of the family --------------------------------------------- *)
F(fn, form, neg, si, sir) == [fn |-> fn, form |-> form, neg |-> neg, si |-> si, sir |-> sir]
PermForms == << F("bss_eval_sources", "bss", FALSE, FALSE, TRUE), F("sdr", "perm", FALSE, FALSE, FALSE),
                F("sdr", "perm", TRUE, FALSE, FALSE), F("sdr", "pit", FALSE, FALSE, FALSE),
                F("sdr", "pit", TRUE, FALSE, FALSE), F("sdr_pit_loss", "pit", TRUE, FALSE, FALSE) >>
PlainForms == << F("sdr_loss", "pair", TRUE, FALSE, FALSE), F("sdr_loss", "diag", TRUE, FALSE, FALSE),
                 F("pairwise_sdr_loss", "pair", TRUE, FALSE, FALSE), F("bss_eval_sources", "bssdiag", FALSE, FALSE, TRUE) >>
SiPermForms == << F("si_bss_eval_sources", "bss", FALSE, TRUE, TRUE), F("si_sdr", "perm", FALSE, TRUE, FALSE),
                  F("si_sdr", "perm", TRUE, TRUE, FALSE), F("si_sdr", "pit", FALSE, TRUE, FALSE),
                  F("si_sdr", "pit", TRUE, TRUE, FALSE), F("si_sdr_pit_loss", "pit", TRUE, TRUE, FALSE) >>
SiPlainForms == << F("si_sdr_loss", "pair", TRUE, TRUE, FALSE), F("si_sdr_loss", "diag", TRUE, TRUE, FALSE),
                   F("pairwise_si_sdr_loss", "pair", TRUE, TRUE, FALSE),
                   F("si_bss_eval_sources", "bssdiag", FALSE, TRUE, TRUE) >>

Forms(prop, q, K, M, hush) ==
  LET perm == PermForms \o (IF q.L = 1 THEN SiPermForms ELSE <<>>)
      plain == PlainForms \o (IF q.L = 1 THEN SiPlainForms ELSE <<>>)
      all == IF prop \in {"C03", "C04"} THEN perm ELSE perm \o plain \o plain
  IN SelectSeq(all, LAMBDA f : /\ f.form \in {"diag", "bssdiag"} => K = M
                               \* the SIR of a silent estimate is undefined
                               /\ hush => ~f.sir
                               \* the si_ SDR functions take no diagonal loading (filter length
                               \* one does not load them), si_bss_eval_sources does
                               /\ TRUE)

(* ---- sizes ------------------------------------------------------------------ *)
Counts(prop) ==
  CASE prop \in {"C03", "C04"} -> PickSeq(<< <<1,1>>, <<2,2>>, <<2,3>>, <<3,2>>, <<3,3>>, <<4,4>>, <<4,6>>, <<6,4>>, <<1,4>>, <<4,1>>,
                                  <<5,5>>, <<6,6>>, <<7,7>>, <<8,8>>, <<5,8>>, <<9,6>>, <<10,10>>, <<12,12>>, <<12,7>>, <<3,11>> >>)
    [] OTHER -> PickSeq(<< <<1,1>>, <<2,2>>, <<2,2>>, <<2,2>>, <<3,3>>, <<3,3>>, <<2,3>>, <<3,2>>, <<1,2>>, <<2,1>>, <<4,4>>,
                           <<1,3>>, <<4,2>>, <<3,4>>, <<5,5>>, <<5,3>>, <<6,6>>, <<8,8>> >>)

LsSmall == <<1, 1, 2, 2, 3, 4, 5, 7, 8, 9, 12, 16, 17, 20>>
LsBig == <<32, 33, 50, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300, 511, 512, 512, 512, 513, 600, 1024>>

Setting(prop, K, big) ==
  LET L == IF big THEN PickSeq(SelectSeq(LsBig, LAMBDA x : x * K <= 1100))
           ELSE PickSeq(SelectSeq(LsSmall, LAMBDA x : x = 1 \/ x * K <= 48))
      zm == PickSeq(IF prop = "C11" THEN <<TRUE>> ELSE <<FALSE, FALSE, TRUE>>)
      ld == PickSeq(CASE prop \in {"C17"} -> << <<0, 1>> >>
                      [] prop = "C12" -> << <<1, 10>>, <<1, 100>>, <<1, 1000>>, <<1, 100000>> >>
                      [] OTHER -> << <<0, 1>>, <<0, 1>>, <<0, 1>>, <<1, 10>>, <<1, 1000>>, <<1, 100000>> >>)
  IN [L |-> L, zm |-> zm, dn |-> ld[1], dd |-> ld[2]]

Times(K, L, big, long) ==
  LET lo == IF big THEN 8 * K * L ELSE 5 * K * L + 20
  IN IF long THEN PickSeq(<<32767, 32768, 32769, 40000, 44100, 65535, 65536, 65537, 70000, 100003, 131072, 131073, 160000, 262143, 300001>>)
     ELSE MaxOf(lo, PickSeq(<<lo, lo + Pick(1..100), lo + Pick(1..100), lo + Pick(1..1000),
                         100, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025,
                         IF big THEN 16384 ELSE 300, IF big THEN 8000 ELSE 2048, IF big THEN 16000 ELSE 160>>))

(* ---- calls ------------------------------------------------------------------ *)
Batches(prop, big) ==
  IF prop = "C07"
  THEN IF big THEN << <<1>>, <<2>>, <<3>>, <<1, 2>>, <<2, 1, 1>> >>
       ELSE << <<1>>, <<2>>, <<3>>, <<5>>, <<8>>, <<17>>, <<33>>, <<64>>, <<65>>, <<130>>, <<2, 3>>, <<3, 2>>, <<1, 4>>, <<4, 1>>,
               <<2, 2, 2>>, <<3, 1, 2>>, <<1, 1, 1, 2>>, <<10, 11>> >>
  ELSE IF big THEN << <<>>, <<>>, <<>>, <<1>>, <<2>> >>
       ELSE << <<>>, <<>>, <<>>, <<>>, <<1>>, <<2>>, <<3>>, <<2, 2>>, <<5>> >>

HugeBatches == << <<256>>, <<257>>, <<300>>, <<512>>, <<513>>, <<1025>>, <<32, 33>>, <<2, 3, 100>>, <<1100, 1>> >>

\* thousandths of decibels; -1: no clamping
Clamps == << 0, 1, 500, 1000, 3000, 4700, 5000, 10000, 12750, 20000, 29999, 30000, 40000, 43210, 50000, 60000, 80000, 100000, 120000, 150000 >>

Call(prop, j, qs, K, M, big, hush) ==
  LET qi == Pick(1..Len(qs))
      q == qs[qi]
      f == PickSeq(Forms(prop, q, K, M, hush))
      cg == IF f.si THEN 0
            ELSE CASE prop = "C13" -> PickSeq(<<20, 30, 50>>)
                   [] prop \in {"C05", "C06", "C07", "C08"} -> PickSeq(<<0, 0, 0, 0, 30>>)
                   [] prop = "C03" -> PickSeq(<<0, 0, 0, 0, 0, 0, 30>>)
                   [] prop = "C16" -> PickSeq(<<0, 0, 0, 10>>)
                   [] OTHER -> 0
      clamp == CASE prop = "C09" -> PickSeq(Clamps)
                 [] prop \in {"C03", "C05", "C06", "C07", "C08", "C13", "C16"} -> PickSeq(<<-1, -1, -1, -1, PickSeq(Clamps)>>)
                 [] OTHER -> -1
      view == prop \in {"C06", "C07", "C03", "C16"}
  IN [qi |-> qi, fn |-> f.fn, form |-> f.form, neg |-> f.neg, si |-> f.si,
      be |-> PickSeq(<<"np", "pt">>),
      dt |-> PickSeq(IF prop = "C05" THEN <<"f64", "f32">> ELSE IF prop = "C03" THEN <<"f64", "f64", "f64", "f32">> ELSE <<"f64", "f64", "f32">>),
      cg |-> cg, clamp |-> clamp,
      batch |-> PickSeq(Batches(prop, big)),
      order |-> IF view \/ prop = "C08" THEN PickSeq(<<"id", "est", "ref", "both">>) ELSE "id",
      gain |-> IF view THEN PickSeq(<<"unit", "neg", "pow2", "mixed", "mixed", "small", "large", "wide">>)
               ELSE IF prop \in {"C05", "C11", "C12", "C13"} THEN PickSeq(<<"unit", "unit", "mixed", "small", "large">>) ELSE "unit",
      pad |-> IF prop = "C06" THEN PickSeq(<<"no", "no", "post", "pre", "both">>) ELSE "no",
      dc |-> IF prop \in {"C06", "C11", "C05"} THEN PickSeq(<<"no", "yes">>) ELSE "no",
      lay |-> IF prop \in {"C16", "C05"} THEN PickSeq(<<"c", "c", "fortran", "stride2", "neg", "swap", "offset", "readonly", "bcast", "bigend">>) ELSE "c",
      repeat |-> IF prop = "C16" /\ j > 2 THEN PickSeq(<<0, 0, Pick(1..(j-1)), Pick(1..(j-1))>>) ELSE 0,
      \* a failing call in between, which must leave no trace
      \* the state of the process around the call, of which results are independent
      amb |-> [err |-> PickSeq(<<"warn", "warn", "ignore", "mixed">>), tdt |-> PickSeq(<<"f32", "f32", "f64">>),
               grad |-> PickSeq(<<TRUE, TRUE, FALSE>>), inf |-> Pick(1..6) = 1],
      rg |-> PickSeq(<<"no", "no", "no", "est", "ref", "both">>),    \* tensors that require gradients
      trouble |-> IF prop = "C16" THEN PickSeq(<<"none", "none", "none", "nan", "inf", "shape", "hilo", "singular">>) ELSE "none"]

\* each call is made in the 2 back ends and 2 precisions (C05)
Quad(c) == << [c EXCEPT !.be = "np", !.dt = "f64"], [c EXCEPT !.be = "pt", !.dt = "f64"],
              [c EXCEPT !.be = "np", !.dt = "f32"], [c EXCEPT !.be = "pt", !.dt = "f32"] >>

World(prop, i) ==
  LET big == i % BIG = 0
      km0 == TLCEval(Counts(prop))
      long == ~big /\ prop \in {"C05", "C06", "C07", "C08", "C13", "C16"} /\ i % 9 = 1
      \* hundreds of items
      wide == ~big /\ ~long /\ prop \in {"C05", "C07", "C13"} /\ i % 20 = 2
      km == IF wide THEN PickSeq(<< <<1, 1>>, <<2, 2>>, <<2, 1>>, <<1, 3>>, <<2, 3>> >>) ELSE IF big \/ long THEN <<MinOf(km0[1], 3), MinOf(km0[2], 3)>> ELSE km0
      K == km[1]  M == km[2]
      qs == TLCEval([a \in 1..(IF big THEN 1 ELSE 2) |-> TLCEval(Setting(prop, K, big))])
      Lmax == FoldLeft(LAMBDA a, q : MaxOf(a, q.L), 1, qs)
      \* a silent estimate among the others
      hush == M > 1 /\ prop \in {"C05", "C06", "C07", "C13", "C16"} /\ Pick(1..(IF prop = "C13" THEN 3 ELSE 6)) = 1
      nc == IF wide THEN MinOf(NCALLS, 4) ELSE IF big \/ long THEN MinOf(NCALLS, 6) ELSE NCALLS
      calls == TLCEval([j \in 1..nc |-> LET c == TLCEval(Call(prop, j, qs, K, M, big \/ long, hush)) IN
                                         IF wide THEN [c EXCEPT !.batch = PickSeq(HugeBatches)] ELSE c])
  IN [id |-> i, big |-> big, hush |-> hush, K |-> K, M |-> M, T |-> IF wide THEN MinOf(300, Times(K, Lmax, FALSE, FALSE)) ELSE Times(K, Lmax, big, long), qs |-> qs,
      nscenes |-> IF prop = "C07" THEN PickSeq(<<2, 3, 4>>) ELSE PickSeq(<<1, 1, 2>>),
      cls |-> PickSeq(<<"white", "white", "colour", "colour2", "gauss">>),
      mix |-> IF prop = "C04" THEN PickSeq(<<"levels", "levels", "close">>)
              ELSE IF prop = "C03" THEN PickSeq(<<"ambiguous", "ambiguous", "medium", "close", "levels">>)
              ELSE IF long THEN PickSeq(<<"good", "medium", "poor">>)
              ELSE PickSeq(<<"good", "medium", "medium", "ambiguous", "poor">>),
      threads |-> IF prop = "C16" THEN PickSeq(<<0, 0, 4>>) ELSE 0,
      calls |-> IF prop = "C05" THEN FlattenSeq([j \in 1..nc |-> Quad(calls[j])]) ELSE calls]

Plan == TLCEval([i \in 1..N |-> TLCEval(World(PROP, i))])
ASSUME ndJsonSerialize(IOEnv.PLAN, Plan)

VARIABLE dummy
Init == dummy = 0
Next == FALSE /\ UNCHANGED dummy
=============================================================================
