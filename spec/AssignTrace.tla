---------------------------- MODULE AssignTrace -----------------------------
(***************************************************************************)
(* Validation of calls of the assignment solvers.  A line holds a cost      *)
(* matrix of extended integers <<s, x>> (s = -1, 1: infinities, 2: nan) and  *)
(* what each solver returned for it.  Costs are judged by enumeration when  *)
(* there are few assignments, and by a dual certificate (verified here)     *)
(* otherwise; infinities weigh W, more than all finite costs together.      *)
(***************************************************************************)
EXTENDS Assignment, Json, IOUtils, TLC

Lines == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES k, verdict
AbsI(x) == IF x < 0 THEN -x ELSE x
MinI(a, b) == IF a < b THEN a ELSE b
MaxI(a, b) == IF a > b THEN a ELSE b
Inj == TLCEval([ab \in {x \in (1..5) \X (1..6) : x[1] <= x[2] /\ (x[1] < 5 \/ x[2] = 5)} |-> TLCEval(Injections(ab[1], ab[2]))])

Sum(f, ps) == FoldLeft(LAMBDA a, p : a + f[p[1]][p[2]], 0, ps)
Of(n, m, f) == [a \in 1..MinI(n, m) |-> IF n <= m THEN <<a, f[a]>> ELSE <<f[a], a>>]

Judge(e) ==
  LET n == e.n  m == e.m  N == MinI(n, m)
      Has(s) == \E i \in 1..n : \E j \in 1..m : e.C[i][j][1] = s
      refuse == Has(2) \/ (Has(1) /\ Has(-1))
      big == FoldLeft(LAMBDA a, i : MaxI(a, FoldLeft(LAMBDA b, c : MaxI(b, AbsI(c[2])), 0, e.C[i])), 0, [i \in 1..n |-> i])
      W == 2 * N * big + 1
      cost == TLCEval([i \in 1..n |-> [j \in 1..m |->
                 IF e.C[i][j][1] = 0 THEN e.C[i][j][2] ELSE W * e.C[i][j][1]]])
      small == MaxI(n, m) <= 6 /\ N <= 5 /\ (N < 5 \/ MaxI(n, m) = 5)
      low == IF refuse THEN 0
             ELSE IF small
             THEN LET S == { Sum(cost, Of(n, m, f)) : f \in Inj[<<N, MaxI(n, m)>>] } IN CHOOSE x \in S : \A y \in S : x <= y
             ELSE IF Assert(Len(e.u) = n /\ Len(e.v) = m /\ DualFeasible(cost, n, m, e.u, e.v), <<"dual certificate", e.id>>)
                  THEN DualValue(e.u, e.v) ELSE 0
      Clause(r) ==
        IF refuse THEN (IF r.out = "raise:ValueError" THEN "" ELSE "must be refused")
        ELSE IF r.out # "ok" THEN "outcome " \o r.out
        ELSE IF Len(r.rows) # N \/ Len(r.cols) # N THEN "size"
        ELSE IF \E a \in 1..N : r.rows[a] \notin 0..(n-1) \/ r.cols[a] \notin 0..(m-1) THEN "range"
        ELSE IF \E a \in 1..(N-1) : r.rows[a] >= r.rows[a+1] THEN "rows not increasing"
        ELSE IF \E a, b \in 1..N : a # b /\ r.cols[a] = r.cols[b] THEN "columns not distinct"
        ELSE IF Sum(cost, [a \in 1..N |-> <<r.rows[a] + 1, r.cols[a] + 1>>]) > low + r.tol THEN "not optimal"
        ELSE IF r.mutated THEN "argument modified"
        ELSE ""
      bad == SelectSeq([a \in 1..Len(e.res) |-> [who |-> e.res[a].who, clause |-> Clause(e.res[a])]], LAMBDA x : x.clause # "")
  IN [st |-> IF Len(bad) = 0 THEN "ok" ELSE "bad", id |-> e.id, low |-> low, bad |-> bad]

Init == k \in 1..Len(Lines) /\ verdict = <<>>
Step == /\ verdict = <<>>
        /\ verdict' = Judge(Lines[k])
        /\ (verdict'.st = "bad" => PrintT(ToJson(verdict')))
        /\ UNCHANGED k
Spec == Init /\ [][Step]_<<k, verdict>>
=============================================================================
