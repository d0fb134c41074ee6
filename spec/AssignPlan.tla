----------------------------- MODULE AssignPlan -----------------------------
(***************************************************************************)
(* Cost matrices for the assignment solvers: families to be enumerated      *)
(* exhaustively (expanded by the driver) and random matrices of the kinds   *)
(* that exercise covering and augmentation: ties, equal rows, additive      *)
(* matrices (every assignment optimal), permutations hidden in ties,        *)
(* triangular patterns (long augmenting paths), infinities, nan.            *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json, IOUtils

N == atoi(IOEnv.N)
DEEP == IOEnv.DEEP = "1"

Pick(S) == RandomElement(S)
PickSeq(s) == s[RandomElement(1..Len(s))]
F(x) == <<0, x>>
PINF == <<1, 0>>
NINF == <<-1, 0>>
NAN == <<2, 0>>

Families ==
  << [n |-> 1, m |-> 1, vals |-> <<F(-3), F(0), PINF, NINF, NAN>>],
     [n |-> 1, m |-> 3, vals |-> <<F(-1), F(0), F(5), PINF, NINF, NAN>>],
     [n |-> 3, m |-> 1, vals |-> <<F(-1), F(0), F(5), PINF, NINF, NAN>>],
     [n |-> 2, m |-> 2, vals |-> <<F(-1), F(0), F(2), PINF, NINF, NAN>>],
     [n |-> 2, m |-> 3, vals |-> <<F(0), F(1), F(3), PINF>>],
     [n |-> 3, m |-> 2, vals |-> <<F(0), F(1), NINF>>],
     [n |-> 3, m |-> 2, vals |-> <<F(0), F(1), F(3), PINF>>],
     [n |-> 3, m |-> 3, vals |-> <<F(0), F(1), F(2)>>] >>
  \o (IF DEEP THEN << [n |-> 3, m |-> 3, vals |-> <<F(0), F(1), F(3), PINF>>],
                      [n |-> 3, m |-> 3, vals |-> <<F(0), F(2), NINF>>],
                      [n |-> 4, m |-> 4, vals |-> <<F(0), F(1)>>],
                      [n |-> 3, m |-> 4, vals |-> <<F(0), F(1)>>],
                      [n |-> 2, m |-> 4, vals |-> <<F(0), F(1), F(3), NINF>>],
                      [n |-> 5, m |-> 3, vals |-> <<F(0), F(1)>>] >>
      ELSE << >>)

Mat(n, m, f(_, _)) == TLCEval([i \in 1..n |-> TLCEval([j \in 1..m |-> f(i, j)])])

Random(ii) ==
  LET dims == PickSeq(<< <<2,2>>, <<3,3>>, <<4,4>>, <<4,6>>, <<6,4>>, <<5,5>>, <<6,6>>, <<7,7>>, <<8,8>>, <<8,5>>, <<5,8>>, <<10,10>>,
                         <<12,12>>, <<12,7>>, <<7,12>>, <<16,16>>, <<20,20>>, <<15,25>>, <<25,15>> >>
                      \o IF DEEP THEN << <<32,32>>, <<30,40>>, <<40,30>>, <<48,48>> >> ELSE <<>>)
      n == dims[1]  m == dims[2]
      kind == PickSeq(<<"bits", "small", "small", "wide", "sum", "rows", "perm", "tri", "prod", "inf", "inf", "allinf", "ninf", "mixed", "nan", "shift", "offset">>)
      p == Pick(1..20)
      a == TLCEval([i \in 1..n |-> Pick(-9..9)])
      b == TLCEval([j \in 1..m |-> Pick(-9..9)])
      base == TLCEval([j \in 1..m |-> Pick(-20..20)])
      C == CASE kind = "bits" -> Mat(n, m, LAMBDA i, j : F(IF Pick(1..20) <= p THEN 1 ELSE 0))
             [] kind = "small" -> Mat(n, m, LAMBDA i, j : F(Pick(-3..3)))
             [] kind = "wide" -> Mat(n, m, LAMBDA i, j : F(Pick(-1000..1000)))
             [] kind = "sum" -> Mat(n, m, LAMBDA i, j : F(a[i] + b[j]))
             [] kind = "rows" -> Mat(n, m, LAMBDA i, j : F(base[j] + (IF i % 3 = 0 THEN 1 ELSE 0)))
             [] kind = "perm" -> Mat(n, m, LAMBDA i, j : F(IF (i * 7 + 3) % m = j - 1 THEN -5 ELSE Pick(-4..(-3))))
             [] kind = "tri" -> Mat(n, m, LAMBDA i, j : F(IF j <= i THEN 0 ELSE Pick(1..2)))
             [] kind = "prod" -> Mat(n, m, LAMBDA i, j : F(i * j))
             [] kind = "inf" -> Mat(n, m, LAMBDA i, j : IF Pick(1..20) <= p THEN PINF ELSE F(Pick(-50..50)))
             [] kind = "allinf" -> LET x == Pick({PINF, NINF}) IN Mat(n, m, LAMBDA i, j : x)
             [] kind = "ninf" -> Mat(n, m, LAMBDA i, j : IF Pick(1..20) <= p THEN NINF ELSE F(Pick(-50..50)))
             [] kind = "mixed" -> LET h == <<Pick(1..n), Pick(1..m)>>  g == <<Pick(1..n), Pick(1..m)>> IN
                  Mat(n, m, LAMBDA i, j : IF <<i, j>> = h THEN PINF ELSE IF <<i, j>> = g THEN NINF ELSE F(Pick(-50..50)))
             [] kind = "nan" -> LET h == <<Pick(1..n), Pick(1..m)>> IN
                  Mat(n, m, LAMBDA i, j : IF <<i, j>> = h THEN NAN ELSE F(Pick(-50..50)))
             [] kind = "offset" -> Mat(n, m, LAMBDA i, j : F(30000 + Pick(0..3)))
             [] OTHER -> Mat(n, m, LAMBDA i, j : F(((i + j) % m) * 2 + Pick(0..1)))
  IN [n |-> n, m |-> m, kind |-> kind, C |-> C,
      scale |-> PickSeq(<<"one", "one", "tenth", "dyadic", "milli", "tiny", "large">>),
      lay |-> PickSeq(<<"c", "c", "t", "s">>)]

ASSUME ndJsonSerialize(IOEnv.PLAN, Families \o TLCEval([i \in 1..N |-> TLCEval(Random(i))]))
VARIABLE dummy
Init == dummy = 0
Next == FALSE /\ UNCHANGED dummy
=============================================================================
