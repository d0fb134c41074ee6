---------------------------- MODULE AssignmentMC ----------------------------
(***************************************************************************)
(* Small-scope theorems behind the judgement of assignments: weighing       *)
(* infinities by W orders assignments as the lexicographic order on         *)
(* (infinities, finite cost) does; dual solutions bound; total SIR.         *)
(***************************************************************************)
EXTENDS Assignment, TLC
CONSTANTS NR, NC, Ext        \* Ext: set of extended values <<s, x>>

ExtA == {<<0, 0>>, <<0, 1>>, <<0, 3>>, <<1, 0>>}
ExtB == {<<0, -2>>, <<0, 0>>, <<0, 1>>, <<1, 0>>, <<-1, 0>>}

VARIABLE C
Init == C \in [1..NR -> [1..NC -> Ext]]
Next == UNCHANGED C
Spec == Init /\ [][Next]_C
NoMix == ~(\E i \in 1..NR : \E j \in 1..NC : C[i][j][1] = 1) \/ ~(\E i \in 1..NR : \E j \in 1..NC : C[i][j][1] = -1)
MaxAbs == CHOOSE x \in { IF e[2] < 0 THEN -e[2] ELSE e[2] : e \in Ext } : \A e \in Ext : (IF e[2] < 0 THEN -e[2] ELSE e[2]) <= x
N == IF NR < NC THEN NR ELSE NC
W == 2 * N * MaxAbs + 1
Cost == [i \in 1..NR |-> [j \in 1..NC |-> IF C[i][j][1] = 0 THEN C[i][j][2] ELSE W * C[i][j][1]]]
Weighing == NoMix => \A P \in Matchings(NR, NC) :
   ExtOptimal(P, C, NR, NC) <=> \A Q \in Matchings(NR, NC) : Total(P, Cost) <= Total(Q, Cost)
AllMatchings == \A P \in Matchings(NR, NC) : IsMatching(P, NR, NC)
=============================================================================
