----------------------------- MODULE OrderPlan ------------------------------
(* Generator of scenes on which filter length and references vary (OrderTrace). *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json, IOUtils
N == atoi(IOEnv.N)
BIG == atoi(IOEnv.BIG)
Pick(S) == RandomElement(S)
PickSeq(s) == s[RandomElement(1..Len(s))]
MaxOf(a, b) == IF a > b THEN a ELSE b
SortSet(S) == SetToSortSeq(S, LAMBDA a, b : a < b)

World(i) ==
  LET big == i % BIG = 0
      K == IF big THEN PickSeq(<<1, 2, 3>>) ELSE PickSeq(<<1, 2, 2, 3, 3, 4, 5>>)
      M == IF big THEN 2 ELSE PickSeq(<<1, 2, 3, 4>>)
      pool == IF big THEN {1, 17, 32, 64, 100, 128, 129, 255, 256, 300, 511, 512, 513} ELSE {1, 2, 3, 4, 5, 7, 8, 9, 12, 15, 16, 17, 20}
      L3 == TLCEval({ Pick(pool), Pick(pool), Pick(pool), 1 })
      Ls == TLCEval(SortSet({ x \in L3 : x * K <= (IF big THEN 1100 ELSE 60) }))
      Lmax == Ls[Len(Ls)]
      lo == (IF big THEN 6 ELSE 4) * K * Lmax + 20
      T == PickSeq(<<lo, lo + Pick(1..100), lo + Pick(1..2000), MaxOf(lo, 1024), MaxOf(lo, 1000), MaxOf(lo, 513), MaxOf(lo, 16000)>>)
      Sub == SortSet(TLCEval({ Pick(1..K), Pick(1..K) }))
      subs == <<[j \in 1..K |-> j], Sub, <<Pick(1..K)>> >>
      Call(s, L) ==
        LET n == Len(s)  
            same == TLCEval([j \in 1..n |-> Pick(1..M)])     \* an estimate against every reference of the subset
            f == PickSeq(<<"bss", "diag", "diag">>)
        IN [subset |-> s, L |-> L, form |-> f, si |-> L = 1 /\ PickSeq(<<TRUE, FALSE>>),
            ests |-> IF f = "bss" THEN [j \in 1..M |-> j]
                     ELSE IF Pick({TRUE, FALSE}) THEN TLCEval(LET e == Pick(1..M) IN [j \in 1..n |-> e]) ELSE same,
            be |-> PickSeq(<<"np", "pt">>), dt |-> PickSeq(<<"f64", "f64", "f32">>)]
  IN [id |-> i, big |-> big, K |-> K, M |-> M, T |-> T, zm |-> PickSeq(<<FALSE, FALSE, TRUE>>),
      qs |-> [j \in 1..Len(Ls) |-> [L |-> Ls[j], zm |-> FALSE, dn |-> 0, dd |-> 1]],
      cls |-> PickSeq(<<"white", "colour", "colour2", "gauss">>),
      mix |-> PickSeq(<<"good", "medium", "ambiguous", "close">>),
      calls |-> FlattenSeq([a \in 1..Len(subs) |-> FlattenSeq([b \in 1..Len(Ls) |->
                   TLCEval(<<Call(subs[a], Ls[b]), Call(subs[a], Ls[b])>>)])])]

ASSUME ndJsonSerialize(IOEnv.PLAN, TLCEval([i \in 1..N |-> TLCEval(World(i))]))
VARIABLE dummy
Init == dummy = 0
Next == FALSE /\ UNCHANGED dummy
=============================================================================
