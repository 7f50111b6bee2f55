------------------------------ MODULE MC_Clean ------------------------------
(* Design facts about cleaning, for all pairs of small factors (built entry  *)
(* by entry): there always is a clean result, it is stable, and the ways in   *)
(* which observations are judged agree with the definitions.                  *)
EXTENDS Clean
CONSTANTS Rows, L
VARIABLE v
Init == v = <<>>
Next == Len(v) < 2 * Rows * L /\ \E a \in BOOLEAN : v' = Append(v, IF a THEN 1 ELSE -1)
Spec == Init /\ [][Next]_v
Full == Len(v) = 2 * Rows * L
fs == [k \in 1..2 |-> [n \in 1..Rows |-> [l \in 1..L |-> v[(k - 1) * Rows * L + (n - 1) * L + l]]]]
All == 1..L
Sets == SurvivorSets(fs)
Possible == Full => Sets # {}
NothingToDo == Full => (~Redundant(fs) <=> All \in Sets)
OnlyIfNothingToDo == Full => (All \in Sets => Sets = {All})
\* cleaning again changes nothing, whether dimensions were removed or reset
Stable == Full => \A S \in Sets : /\ ~(S # {} /\ Redundant(Restrict(fs, S)))
                                  /\ SurvivorSets(ResetOn(fs, S)) = {S}
\* removing after a reset is removing
ResetThenRemove == Full => \A S \in Sets : Restrict(ResetOn(fs, S), S) = Restrict(fs, S)
\* a cell of the OR-AND product only loses what is inactive
Cell(g, a, b) == \E l \in 1..Width(g) : g[1][a][l] = 1 /\ g[2][b][l] = 1
InactiveDoNotMatter ==
  Full => LET S == {l \in All : ~Inactive(fs, l)}
          IN \A a, b \in 1..Rows : Cell(fs, a, b) = (S # {} /\ Cell(Restrict(fs, S), a, b))
\* whatever survives explains no more than before
NeverMore == Full => \A S \in Sets : \A a, b \in 1..Rows : (S # {} /\ Cell(Restrict(fs, S), a, b)) => Cell(fs, a, b)
\* the judgement of observations
Judged == Full => /\ \A S \in SUBSET All : S # {} =>
                        (RemovedTo(fs, Restrict(fs, S)) <=> \E T \in Sets : Restrict(fs, T) = Restrict(fs, S))
                  /\ \A S \in SUBSET All : (ResetTo(fs, ResetOn(fs, S)) <=> \E T \in Sets : ResetOn(fs, T) = ResetOn(fs, S))
                  /\ \A S \in Sets : S \in Embeddings(fs, Restrict(fs, S)) /\ S \in ChosenSurvivors(fs, Restrict(fs, S))
=============================================================================
