------------------------------ MODULE FirPlan -------------------------------
(* Generator of filtered-reference scenes (see FirTrace). *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json, IOUtils

N == atoi(IOEnv.N)
MAXT == atoi(IOEnv.MAXT)
Pick(S) == RandomElement(S)
PickSeq(s) == s[RandomElement(1..Len(s))]
MaxOf(a, b) == IF a > b THEN a ELSE b
MinOf(a, b) == IF a < b THEN a ELSE b
F(fn, form, neg) == [fn |-> fn, form |-> form, neg |-> neg]
Funcs == << F("sdr_loss", "pair", TRUE), F("sdr_loss", "diag", TRUE), F("sdr", "perm", FALSE), F("sdr", "perm", TRUE),
            F("sdr_pit_loss", "pit", TRUE), F("bss_eval_sources", "bss", FALSE), F("bss_eval_sources", "bssdiag", FALSE) >>

Pow2 == {64, 128, 256, 512, 1024, 2048, 4096, 8192, 16384, 32768}

Line(i) ==
  LET L == PickSeq(<<1, 2, 3, 5, 8, 16, 17, 31, 32, 33, 64, 100, 127, 128, 129, 255, 256, 257, 400, 511, 512, 512, 512, 512, 513, 640, 1000, 1024>>)
      K == IF L >= 400 THEN PickSeq(<<1, 2>>) ELSE PickSeq(<<1, 2, 2, 3>>)
      lo == 6 * K * L + 200
      p2 == TLCEval({ x \in Pow2 : x >= lo /\ x <= MAXT })
      T == MaxOf(lo, IF p2 = {} THEN lo + Pick(0..50)
           ELSE LET p == Pick(p2) IN PickSeq(<<p - 1, p, p + 1, p - L, p - L + 1, p - L + 2, p + 2 - L \div 2, Pick(lo..(lo + 3000)), 
                                               IF lo <= 16000 /\ MAXT >= 16000 THEN 16000 ELSE p>>))
      refs == TLCEval([k \in 1..K |-> <<Pick(1..1020), Pick(0..1020), Pick(0..1020), Pick(1..1018), Pick(0..1018), Pick(0..1018)>>])
      lead == PickSeq(<<0, 0, 1, 5, L>>)
      tail == 2 * L + 2
      Delay == PickSeq(<<0, L - 1, MaxOf(L - 2, 0), Pick(0..(L-1)), Pick(0..(L-1)), L \div 2>>)
      Gain == PickSeq(<<-7, -3, -1, 1, 2, 5, 9>>)
      One(k) == TLCEval([j \in 1..Pick(1..4) |-> <<k, Delay, Gain>>])
      Mixed == TLCEval([j \in 1..Pick(2..5) |-> <<Pick(1..K), Delay, Gain>>])
      Out(k) == << <<k, PickSeq(IF lead > 0 THEN <<L, L + 1, L + Pick(0..L), -1, -1>> ELSE <<L, L, L + 1, L + Pick(0..L)>>), 12>> >>
                \o (IF Pick({TRUE, FALSE}) THEN << <<k, Delay, PickSeq(<<-3, 2, 4>>)>> >> ELSE <<>>)
      Est(m) == LET k == IF m <= K THEN m ELSE Pick(1..K) IN
                PickSeq(<<One(k), One(k), Mixed, Out(k)>>)
      ests == TLCEval([m \in 1..K |-> TLCEval(Est(m))])
      nz(taps) == TRUE
  IN [id |-> i, K |-> K, L |-> L, T |-> T, lead |-> lead, tail |-> tail, refs |-> refs, ests |-> ests,
      calls |-> TLCEval([j \in 1..4 |-> PickSeq(Funcs) @@
                 [be |-> IF j % 2 = 0 THEN "np" ELSE "pt", dt |-> IF j <= 2 THEN "f64" ELSE PickSeq(<<"f32", "f64">>)]])]

ASSUME ndJsonSerialize(IOEnv.PLAN, TLCEval([i \in 1..N |-> TLCEval(Line(i))]))
VARIABLE dummy
Init == dummy = 0
Next == FALSE /\ UNCHANGED dummy
=============================================================================
