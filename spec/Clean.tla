------------------------------- MODULE Clean --------------------------------
(* Arrays of rows, and redundant latent dimensions of the factors of a layer. *)
EXTENDS Integers, Sequences, FiniteSets

\* arrays are sequences of rows (of integers)
SameShape(a, b) ==
  /\ Len(a) = Len(b)
  /\ \A j \in DOMAIN a : Len(a[j]) = Len(b[j])
EntriesIn(a, S) == \A j \in DOMAIN a : \A k \in DOMAIN a[j] : a[j][k] \in S
\* entries flagged 1 in the mask agree in a and b
Masked(mask, a, b) ==
  \A j \in DOMAIN a : \A k \in DOMAIN a[j] : mask[j][k] = 1 => a[j][k] = b[j][k]

\* ---------------------------------------------------- redundant dimensions
\* fs: sequence of factors (sequences of rows of equal length)
Width(fs) == IF Len(fs[1]) = 0 THEN 0 ELSE Len(fs[1][1])
Column(f, l) == [n \in DOMAIN f |-> f[n][l]]
Inactive(fs, l) == \E k \in DOMAIN fs : \A n \in DOMAIN fs[k] : fs[k][n][l] = -1
Duplicate(fs, l, m) == \E k \in DOMAIN fs : Column(fs[k], l) = Column(fs[k], m)
Redundant(fs) ==
  \E l \in 1..Width(fs) : Inactive(fs, l) \/ \E m \in 1..Width(fs) : m # l /\ Duplicate(fs, l, m)

\* strictly increasing sequences of surviving dimensions
RECURSIVE SeqOf(_)
SeqOf(S) == IF S = {} THEN <<>>
            ELSE LET a == CHOOSE a \in S : \A b \in S : a <= b IN <<a>> \o SeqOf(S \ {a})
Restrict(fs, S) ==
  LET q == SeqOf(S)
  IN [k \in DOMAIN fs |-> [n \in DOMAIN fs[k] |-> [j \in 1..Len(q) |-> fs[k][n][q[j]]]]]

\* S is a legitimate set of survivors: nothing redundant stays, everything
\* that goes was inactive or a duplicate of a survivor
Survivors(fs, S) ==
  /\ \A l \in S : ~Inactive(fs, l) /\ \A m \in S : m # l => ~Duplicate(fs, l, m)
  /\ \A l \in (1..Width(fs)) \ S : Inactive(fs, l) \/ \E m \in S : Duplicate(fs, l, m)

RestrictCols(a, S) == Restrict(<<a>>, S)[1]
RestrictRows(a, S) == LET q == SeqOf(S) IN [j \in 1..Len(q) |-> a[q[j]]]
ResetOn(fs, S) ==
  [k \in DOMAIN fs |-> [n \in DOMAIN fs[k] |->
     [l \in DOMAIN fs[k][n] |-> IF l \in S THEN fs[k][n][l] ELSE -1]]]
SurvivorSets(fs) == {S \in SUBSET (1..Width(fs)) : Survivors(fs, S)}
\* sets of dimensions whose columns are those of gs, in this order
Embeddings(fs, gs) ==
  LET w == Width(gs)
      RECURSIVE go(_, _)
      go(j, from) == IF j > w THEN {{}}
                     ELSE UNION {{{l} \cup s : s \in go(j + 1, l + 1)} :
                                 l \in {q \in from..Width(fs) : \A k \in DOMAIN fs : Column(fs[k], q) = Column(gs[k], j)}}
  IN go(1, 1)
\* survivors that cleaning fs to gs may have chosen
ChosenSurvivors(fs, gs) == {S \in Embeddings(fs, gs) : Survivors(fs, S) /\ gs = Restrict(fs, S)}
RemovedTo(fs, gs) == ChosenSurvivors(fs, gs) # {}
\* what is left after a reset is what is not inactive
ResetTo(fs, gs) ==
  LET S == {l \in 1..Width(fs) : ~Inactive(gs, l)}
  IN SameShape(fs[1], gs[1]) /\ gs = ResetOn(fs, S) /\ Survivors(fs, S)
=============================================================================
