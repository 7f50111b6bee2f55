----------------------------- MODULE MC_Outputs -----------------------------
(* Relations between the ways of summarising a recorded posterior, over all   *)
(* short histories of small factors.                                          *)
EXTENDS Outputs
CONSTANTS Ls, Ts, Ks
VARIABLES mo, tr
Init == /\ mo \in Canonical
        /\ \E L \in Ls, T \in Ts, K \in Ks :
             tr \in [1..K -> [1..T -> [1..1 -> [1..L -> {-1, 1}]]]]
Next == UNCHANGED <<mo, tr>>
Spec == Init /\ [][Next]_<<mo, tr>>
One == [k \in DOMAIN tr |-> 1]
Cur == SampleOf(tr, Len(tr[1]))
P(tech) == Prob(tech, mo[1], mo[2], Cur, tr, One)
\* all outputs are probabilities
IsProb == \A t \in {"point_estimate", "factor_map", "mc", "factor_mean"} : P(t) \in 0..Den(t, tr)
\* with a single sample, everything is the product of that sample
Single == Len(tr[1]) = 1 =>
  \A t \in {"factor_map", "mc", "factor_mean"} : P(t) = P("point_estimate") /\ Den(t, tr) = 1
\* the expectation at the marginals is the average product over all
\* recombinations of the samples (the samples of different entries independent)
Recombine ==
  LET K == Len(tr)  L == Len(tr[1][1][1])  T == Len(tr[1])
      pick == [1..K -> [1..L -> 1..T]]
  IN P("factor_mean") = Cardinality({q \in pick :
        Cell(mo[1], mo[2], [k \in 1..K |-> [l \in 1..L |-> tr[k][q[k][l]][1][l]]])})
\* constant factors: all agree
Constant == (\A k \in DOMAIN tr : \A s \in DOMAIN tr[k] : tr[k][s] = tr[k][1]) =>
  /\ P("mc") = Len(tr[1]) * P("point_estimate")
  /\ P("factor_map") = P("point_estimate")
  /\ P("factor_mean") = Den("factor_mean", tr) * P("point_estimate")
=============================================================================
