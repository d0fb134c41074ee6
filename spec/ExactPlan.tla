----------------------------- MODULE ExactPlan ------------------------------
(***************************************************************************)
(* Generator of the configurations that are replayed in the code and        *)
(* judged by ExactTrace.  Every choice is made here (seeded by -seed); the  *)
(* driver only draws the integer samples of a class of signals.             *)
(* The size of a line is chosen so that the delayed references can be       *)
(* linearly independent:  K*L <= T+L-1.                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json, IOUtils

PROP == IOEnv.PROP
N    == atoi(IOEnv.N)

MaxOf(a, b) == IF a > b THEN a ELSE b
Pick(S) == RandomElement(S)
PickSeq(s) == s[RandomElement(1..Len(s))]

(* ---- functions -------------------------------------------------------- *)
\* name, observed form, negated?, needs equal counts?
SdrFuncs == << [fn |-> "sdr_loss", form |-> "pair", neg |-> TRUE],
               [fn |-> "sdr_loss", form |-> "diag", neg |-> TRUE],
               [fn |-> "pairwise_sdr_loss", form |-> "pair", neg |-> TRUE],
               [fn |-> "sdr", form |-> "perm", neg |-> FALSE],
               [fn |-> "sdr", form |-> "perm", neg |-> TRUE],       \* change_sign
               [fn |-> "sdr", form |-> "pit", neg |-> FALSE],       \* no permutation returned
               [fn |-> "sdr_pit_loss", form |-> "pit", neg |-> TRUE] >>
SiSdrFuncs == << [fn |-> "si_sdr_loss", form |-> "pair", neg |-> TRUE],
                 [fn |-> "si_sdr_loss", form |-> "diag", neg |-> TRUE],
                 [fn |-> "pairwise_si_sdr_loss", form |-> "pair", neg |-> TRUE],
                 [fn |-> "si_sdr", form |-> "perm", neg |-> FALSE],
                 [fn |-> "si_sdr", form |-> "perm", neg |-> TRUE],
                 [fn |-> "si_sdr", form |-> "pit", neg |-> FALSE],
                 [fn |-> "si_sdr_pit_loss", form |-> "pit", neg |-> TRUE] >>
BssFuncs == << [fn |-> "bss_eval_sources", form |-> "bss", neg |-> FALSE],
               [fn |-> "bss_eval_sources", form |-> "bssdiag", neg |-> FALSE] >>
SiBssFuncs == << [fn |-> "si_bss_eval_sources", form |-> "bss", neg |-> FALSE],
                 [fn |-> "si_bss_eval_sources", form |-> "bssdiag", neg |-> FALSE] >>

Funcs(prop, L, dn) ==
  LET sdrs == IF L = 1 THEN (IF dn = 0 THEN SdrFuncs \o SiSdrFuncs ELSE SdrFuncs) ELSE SdrFuncs
      bsss == IF L = 1 THEN BssFuncs \o SiBssFuncs ELSE BssFuncs
  IN CASE prop = "C01" -> sdrs
       [] prop = "C02" -> bsss
       [] OTHER -> sdrs \o bsss

(* ---- sizes ------------------------------------------------------------ *)
Pow2s == {1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192, 16384, 32768}
AroundPow2(lo, hi) == { p + d : p \in { q \in Pow2s : q >= lo /\ q <= hi }, d \in {-1, 0, 1} }

\* signals such that the linear correlations at the lags of the filter just fit
\* (or just do not fit) in a power of two
Brim(L, lo, hi) == TLCEval(Pick({ q \in Pow2s : q >= lo /\ q <= hi }) - L + PickSeq(<<-1, 0, 1, 2, 2, 3>>))

\* dense integer signals, exact certificates
Dense(prop) ==
  LET L == PickSeq(<<1, 1, 2, 2, 3, 3, 4, 4, 5, 6, 7, 8>>)
      K == IF prop = "C02" THEN PickSeq(IF L <= 4 THEN <<1, 2, 2, 3, 3, 4>> ELSE <<1, 2, 3>>)
           ELSE PickSeq(<<1, 1, 2, 2, 3>>)
      M == PickSeq(<<1, 2, 2, 3, K, K, K>>)
      lo == (K - 1) * L + 1
      T == PickSeq(<<lo + 1, lo + Pick(1..4), lo + Pick(1..12), lo + Pick(1..24), 16, 17, 31, 32, 33, Brim(L, 8, 32), Brim(L, 8, 32)>>)
  IN [regime |-> "dense", L |-> L, K |-> K, M |-> M, T |-> IF T <= lo THEN lo + 1 ELSE T,
      cls |-> PickSeq(<<"white", "white", "white", "smooth", "sparse", "offset", "impulse", "mix", "mix">>)]

\* frames shorter than the filter
Short(prop) ==
  LET K == PickSeq(<<1, 1, 2>>)
      L == Pick(2..9)
      lo == (K - 1) * L + 1
      T == lo + (IF prop = "C11" THEN Pick(2..4) ELSE Pick(0..2))
  IN [regime |-> "short", L |-> L, K |-> K, M |-> PickSeq(<<1, 2, K>>), T |-> IF T > 12 THEN 12 ELSE T,
      cls |-> PickSeq(<<"white", "impulse">>)]

\* longer filters, exact certificates
Mid(prop) ==
  LET L == PickSeq(<<9, 12, 15, 16, 17, 20, 24>>)
      K == IF prop = "C02" /\ L <= 12 THEN 2 ELSE 1
  IN [regime |-> "mid", L |-> L, K |-> K, M |-> PickSeq(<<1, 2>>), T |-> MaxOf(K * L + 1, PickSeq(<<K * L + Pick(1..20), K * L + Pick(1..20), Brim(L, 32, 64)>>)),
      cls |-> PickSeq(<<"white", "mix">>)]

\* long sparse signals with dominant main taps, long filters
Large(prop, maxL) ==
  LET L == PickSeq(SelectSeq(<<32, 33, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 400, 511, 512, 512, 512, 513, 1024, 1500, 2048>>,
                             LAMBDA x : x <= maxL))
      K == IF L <= 257 THEN PickSeq(<<1, 2, 3>>) ELSE IF prop = "C02" THEN PickSeq(<<1, 2>>) ELSE 1
      T == PickSeq(<<Pick(AroundPow2(64, 16384)), Brim(L, 128, 32768), Brim(L, 1024, 32768), Pick(AroundPow2(1024, 32768)), Pick(500..20000),
                     Pick(L..(L+40)), L, L - 1, L \div 2, 16000, 44100, PickSeq(<<65535, 65537, 70000, 100003, 131073, 262145, 480001>>)>>)
  IN [regime |-> "large", L |-> L, K |-> K, M |-> PickSeq(<<1, K, K, 2>>), T |-> MaxOf(T, MaxOf(40, (K - 1) * L + 20)),
      cls |-> PickSeq(<<"taps", "edge", "edge", "chain">>)]

Batches == << <<>>, <<>>, <<1>>, <<2>>, <<3>>, <<2, 3>>, <<1, 2, 1>> >>
Gains == << "unit", "unit", "neg", "pow2", "mixed", "small", "large" >>
Layouts == << "c", "c", "c", "fortran", "stride2", "neg", "swap", "offset", "bigend" >>

(* ---- one line --------------------------------------------------------- *)
Call(f, be, dt) ==
  [fn |-> f.fn, form |-> f.form, neg |-> f.neg, be |-> be, dt |-> dt,
   batch |-> PickSeq(Batches), gain |-> IF dt \in {"i16", "i32", "i64"} THEN PickSeq(<<"unit", "full", "full">>) ELSE PickSeq(Gains), lay |-> PickSeq(Layouts)]

Fits(f, K, M) == f.form \in {"diag", "bssdiag"} => K = M

\* all functions x back ends x precisions on small signals; a sample of them on large ones
Calls(prop, c) ==
  LET fs == SelectSeq(Funcs(prop, c.L, c.dn), LAMBDA f : Fits(f, c.K, c.M))
      bd == << <<"np", "f64">>, <<"pt", "f64">>, <<"np", "f32">>, <<"pt", "f32">>, <<"np", PickSeq(<<"i16", "i32", "i64">>)>> >>
  IN IF c.regime = "large"
     THEN [i \in 1..4 |-> LET f == PickSeq(fs) IN Call(f, bd[i][1], bd[i][2])]
     ELSE FlattenSeq([j \in 1..Len(fs) |-> [i \in 1..Len(bd) |-> Call(fs[j], bd[i][1], bd[i][2])]])

Loads == << <<1, 1>>, <<1, 10>>, <<1, 100>>, <<1, 1000>>, <<3, 7>>, <<1, 100000>>, <<1, 10000000>>, <<1, 1000000000>> >>

Base(prop, i, maxL) ==
  CASE i % 8 = 0 \/ (prop = "C18" /\ i % 8 \notin {1, 2, 3, 4, 7}) -> Large(prop, maxL)
    [] i % 8 = 1 -> Short(prop)
    [] i % 8 = 7 /\ prop \in {"C01", "C18"} -> Dense(prop)
    [] i % 8 = 2 /\ prop # "C11" -> Mid(prop)
    [] OTHER -> Dense(prop)

Line(prop, i, maxL) ==
  LET b0 == TLCEval(Base(prop, i, maxL))
      \* mean removal makes signals dense: small frames only
      b == IF prop = "C11" /\ b0.regime \in {"large", "mid"} THEN TLCEval(Dense(prop)) ELSE b0
      zm == IF prop = "C11" THEN TRUE ELSE IF b.regime = "dense" THEN PickSeq(<<FALSE, FALSE, FALSE, FALSE, TRUE>>) ELSE FALSE
      ld == IF prop = "C12" THEN PickSeq(Loads)
            ELSE IF b.regime = "dense" /\ prop \notin {"C01"} THEN PickSeq(<< <<0, 1>>, <<0, 1>>, <<0, 1>>, PickSeq(Loads) >>) ELSE <<0, 1>>
      c == TLCEval([b EXCEPT !.cls = IF prop = "C11" THEN PickSeq(<<"offset", "offset", "white", "mix">>) ELSE b.cls]
             @@ [id |-> i, zm |-> zm, dn |-> ld[1], dd |-> ld[2],
                 \* some references are silent
                 hush |-> prop = "C12" /\ b.regime # "large" /\ Pick(1..4) = 1])
  IN c @@ [joint |-> prop # "C01", calls |-> TLCEval(Calls(prop, c))]

Plan == TLCEval([i \in 1..N |-> TLCEval(Line(PROP, i, atoi(IOEnv.MAXL)))])
ASSUME ndJsonSerialize(IOEnv.PLAN, Plan)

VARIABLE dummy
Init == dummy = 0
Next == FALSE /\ UNCHANGED dummy
=============================================================================
