----------------------------- MODULE Hungarian ------------------------------
(***************************************************************************)
(* The assignment algorithm of the torch back end (Munkres with stars,      *)
(* primes and covers) as a state machine over integer cost matrices with no *)
(* more rows than columns.  One state per call of a step function, except   *)
(* that step 4 primes one zero per transition.                              *)
(* u and v are history variables: the dual solution the algorithm builds    *)
(* implicitly.                                                              *)
(***************************************************************************)
EXTENDS Assignment, TLC

CONSTANTS NR, NC, Vals
ASSUME NR \in Nat /\ NC \in Nat /\ NR <= NC

VARIABLES C0, C, rowU, colU, star, prime, z0, pc, u, v
vars == <<C0, C, rowU, colU, star, prime, z0, pc, u, v>>

Rows == 1..NR
Cols == 1..NC
MinSet(S) == CHOOSE x \in S : \A y \in S : x <= y
\* first in row-major order
First(S) == CHOOSE p \in S : \A q \in S : p[1] < q[1] \/ (p[1] = q[1] /\ p[2] <= q[2])
Zeros == { p \in Rows \X Cols : C[p[1]][p[2]] = 0 }

Init ==
  /\ C0 \in [Rows -> [Cols -> Vals]]
  /\ C = C0
  /\ rowU = Rows /\ colU = Cols /\ star = {} /\ prime = {} /\ z0 = <<0, 0>>
  /\ u = [i \in Rows |-> 0] /\ v = [j \in Cols |-> 0]
  /\ pc = "step1"

RECURSIVE Greedy(_, _)
Greedy(S, Z) == LET F == { p \in Z : \A q \in S : q[1] # p[1] /\ q[2] # p[2] }
                IN IF F = {} THEN S ELSE Greedy(S \cup {First(F)}, F)

Step1 ==
  /\ pc = "step1"
  /\ LET m == [i \in Rows |-> MinSet({ C[i][j] : j \in Cols })]
         D == [i \in Rows |-> [j \in Cols |-> C[i][j] - m[i]]]
     IN /\ C' = D
        /\ u' = [i \in Rows |-> u[i] + m[i]]
        /\ star' = Greedy({}, { p \in Rows \X Cols : D[p[1]][p[2]] = 0 })
  /\ rowU' = Rows /\ colU' = Cols
  /\ pc' = "step3"
  /\ UNCHANGED <<C0, prime, z0, v>>

Step3 ==
  /\ pc = "step3"
  /\ colU' = colU \ { p[2] : p \in star }
  /\ pc' = IF Cardinality(star) = NR THEN "done" ELSE "step4"
  /\ UNCHANGED <<C0, C, rowU, star, prime, z0, u, v>>

Step4 ==
  /\ pc = "step4"
  /\ LET unc == { p \in Zeros : p[1] \in rowU /\ p[2] \in colU } IN
     IF unc = {} THEN /\ pc' = "step6"
                      /\ UNCHANGED <<C0, C, rowU, colU, star, prime, z0, u, v>>
     ELSE LET p == First(unc)
              srow == { q \in star : q[1] = p[1] }
          IN /\ prime' = prime \cup {p}
             /\ IF srow = {} THEN /\ z0' = p /\ pc' = "step5" /\ UNCHANGED <<rowU, colU>>
                ELSE LET q == CHOOSE q \in srow : TRUE IN
                     /\ rowU' = rowU \ {p[1]} /\ colU' = colU \cup {q[2]}
                     /\ UNCHANGED <<z0, pc>>
             /\ UNCHANGED <<C0, C, star, u, v>>

\* the alternating series that starts at the primed zero p
RECURSIVE Series(_)
Series(p) ==
  LET s == { q \in star : q[2] = p[2] } IN
  IF s = {} THEN {p}
  ELSE LET q == CHOOSE q \in s : TRUE
           r == CHOOSE r \in prime : r[1] = q[1]
       IN {p, q} \cup Series(r)

Step5 ==
  /\ pc = "step5"
  /\ LET path == Series(z0) IN star' = (star \ path) \cup (path \ star)
  /\ prime' = {} /\ rowU' = Rows /\ colU' = Cols
  /\ pc' = "step3"
  /\ UNCHANGED <<C0, C, z0, u, v>>

Step6 ==
  /\ pc = "step6"
  /\ LET d == MinSet({ C[i][j] : i \in rowU, j \in colU }) IN
     /\ C' = [i \in Rows |-> [j \in Cols |-> C[i][j] + (IF i \notin rowU THEN d ELSE 0) - (IF j \in colU THEN d ELSE 0)]]
     /\ u' = [i \in Rows |-> u[i] - (IF i \notin rowU THEN d ELSE 0)]
     /\ v' = [j \in Cols |-> v[j] + (IF j \in colU THEN d ELSE 0)]
     /\ d > 0
  /\ pc' = "step4"
  /\ UNCHANGED <<C0, rowU, colU, star, prime, z0>>

Next == Step1 \/ Step3 \/ Step4 \/ Step5 \/ Step6
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

(* ---- what holds ----------------------------------------------------------- *)
StarsIndependent == \A p, q \in star : p # q => p[1] # q[1] /\ p[2] # q[2]
StarsZero == pc = "step1" \/ (star \cup prime) \subseteq Zeros
Reduced == /\ \A i \in Rows : \A j \in Cols : C[i][j] = C0[i][j] - u[i] - v[j]
           /\ pc # "step1" => \A i \in Rows : \A j \in Cols : C[i][j] >= 0
\* columns without a star carry the largest potential: the dual solution is one
\* for the rectangular problem
Unstarred == \A j \in Cols : j \notin { p[2] : p \in star } => \A k \in Cols : v[j] >= v[k]
CoversMeet == pc = "step4" => \A p \in star : (p[1] \in rowU) # (p[2] \in colU)
Progress6 == pc = "step6" => rowU # {} /\ colU # {}
Done == pc = "done" =>
  /\ IsMatching(star, NR, NC)
  /\ Total(star, C0) = MinCost(C0, NR, NC)
  /\ LET top == CHOOSE x \in { v[j] : j \in Cols } : \A j \in Cols : v[j] <= x
         us == [i \in Rows |-> u[i] + (IF NR < NC THEN top ELSE 0)]
         vs == [j \in Cols |-> v[j] - (IF NR < NC THEN top ELSE 0)]
     IN DualFeasible(C0, NR, NC, us, vs) /\ DualValue(us, vs) = Total(star, C0)
NoDeadEnd == pc # "done" => ENABLED Next
Terminates == <>(pc = "done")
=============================================================================
