----------------------------- MODULE FirSignals -----------------------------
(***************************************************************************)
(* Long signals given by arithmetic: quasi-random references and estimates  *)
(* that are combinations of delayed references.  The specification can      *)
(* evaluate any sample, so that what a driver feeds to the code is checked  *)
(* by probing samples, however long the signals are.                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt

P1 == 1021
P2 == 1019
Quad(a, b, c, p, t) == (((((a * (t % p)) % p) * (t % p)) % p) + ((b * (t % p)) % p) + c) % p

\* r = [a1, b1, c1, a2, b2, c2]; silent before lead and in the last tail samples
RefAt(r, lead, tail, T, t) ==
  IF t < lead \/ t >= T - tail THEN 0
  ELSE Quad(r[1], r[2], r[3], P1, t) + Quad(r[4], r[5], r[6], P2, t) - 1020

\* an estimate is a sequence of taps <<reference, delay, gain>>
EstAt(taps, refs, lead, tail, T, t) ==
  FoldLeft(LAMBDA acc, x : acc + x[3] * RefAt(refs[x[1]], lead, tail, T, t - x[2]), 0, taps)

\* the filter realises an estimate for reference k (SDR), for all references (SAR)
InFilter(x, L) == x[2] >= 0 /\ x[2] < L
ForgivenBy(taps, k, L) == \A i \in 1..Len(taps) : taps[i][1] = k /\ InFilter(taps[i], L)
ForgivenByAll(taps, L) == \A i \in 1..Len(taps) : InFilter(taps[i], L)
\* one tap outside of the filter dominates
Outlaw(taps, L) ==
  \E i \in 1..Len(taps) : /\ ~InFilter(taps[i], L)
                          /\ \A j \in 1..Len(taps) : j # i =>
                                3 * (IF taps[j][3] < 0 THEN -taps[j][3] ELSE taps[j][3])
                                <= (IF taps[i][3] < 0 THEN -taps[i][3] ELSE taps[i][3])
=============================================================================
