----------------------------- MODULE Assignment -----------------------------
(***************************************************************************)
(* Assignments between the rows 1..n and the columns 1..m of a score        *)
(* matrix, and what it means for one to be optimal.                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets

LOCAL MinI(a, b) == IF a < b THEN a ELSE b

\* all injections of 1..a into 1..b, as sequences (a <= b)
RECURSIVE Injections(_, _)
Injections(a, b) ==
  IF a = 0 THEN { <<>> }
  ELSE { Append(s, j) : <<s, j>> \in { <<s, j>> \in Injections(a - 1, b) \X (1..b) :
                                         \A i \in 1..(a - 1) : s[i] # j } }

\* matchings of the smaller side into the larger one: a set of <<row, column>>
Matchings(n, m) ==
  IF n <= m THEN { { <<i, s[i]>> : i \in 1..n } : s \in Injections(n, m) }
            ELSE { { <<s[i], i>> : i \in 1..m } : s \in Injections(m, n) }

IsMatching(P, n, m) ==
  /\ P \subseteq (1..n) \X (1..m)
  /\ Cardinality(P) = MinI(n, m)
  /\ \A p, q \in P : p # q => p[1] # q[1] /\ p[2] # q[2]

RECURSIVE Total(_, _)
Total(P, C) == IF P = {} THEN 0
                ELSE LET p == CHOOSE p \in P : TRUE IN C[p[1]][p[2]] + Total(P \ {p}, C)

(* ---- minimum cost, finite costs ---------------------------------------- *)
MinCost(C, n, m) ==
  LET costs == { Total(P, C) : P \in Matchings(n, m) }
  IN CHOOSE c \in costs : \A d \in costs : c <= d

(* Linear programming certificate of a lower bound: potentials u (rows) and  *)
(* v (columns) with u[i]+v[j] <= C[i][j], and no credit for the unmatched    *)
(* side: v <= 0 when there are more columns, u <= 0 when there are more rows.*)
DualFeasible(C, n, m, u, v) ==
  /\ \A i \in 1..n : \A j \in 1..m : u[i] + v[j] <= C[i][j]
  /\ n < m => \A j \in 1..m : v[j] <= 0
  /\ n > m => \A i \in 1..n : u[i] <= 0
DualValue(u, v) == FoldLeft(LAMBDA a, x : a + x, 0, u) + FoldLeft(LAMBDA a, x : a + x, 0, v)

(* ---- extended costs ----------------------------------------------------- *)
\* entries are <<s, x>>: s = -1 (-infinity), 0 (finite value x), 1 (+infinity), 2 (nan)
ExtCount(P, C, s) == Cardinality({ p \in P : C[p[1]][p[2]][1] = s })
RECURSIVE ExtSum(_, _)
ExtSum(P, C) == IF P = {} THEN 0
                ELSE LET p == CHOOSE p \in P : TRUE IN
                     (IF C[p[1]][p[2]][1] = 0 THEN C[p[1]][p[2]][2] ELSE 0) + ExtSum(P \ {p}, C)
\* P is at least as good as Q: fewer +infinities, more -infinities, smaller finite sum
ExtLeq(P, Q, C) ==
  LET pp == ExtCount(P, C, 1)   qp == ExtCount(Q, C, 1)
      pm == ExtCount(P, C, -1)  qm == ExtCount(Q, C, -1)
  IN \/ pp < qp
     \/ pp = qp /\ pm > qm
     \/ pp = qp /\ pm = qm /\ ExtSum(P, C) <= ExtSum(Q, C)
ExtOptimal(P, C, n, m) == \A Q \in Matchings(n, m) : ExtLeq(P, Q, C)
=============================================================================
