----------------------------- MODULE Catalogue ------------------------------
(* The catalogue of the 36 models: which are the same function of their      *)
(* factors, which become the same when data, hidden values or factors are    *)
(* inverted, and what the groupings the library offers must therefore be.    *)
EXTENDS Lom
CONSTANTS KMax, LMax

Models == Ops \X Ops
\* a way of inverting: values of the outer operator, values handed to it,
\* values handed to the inner operator
Inv == [out : BOOLEAN, hid : BOOLEAN, inn : BOOLEAN]
NoInv == [out |-> FALSE, hid |-> FALSE, inn |-> FALSE]

\* Models and inversions as functions: the assignments of truth values to
\* K x L entries for which they hold
Sizes == {s \in (2..KMax) \X (1..LMax) : TRUE}
Holds(m, v, s, A) ==
  LET hid(l) == v.hid # Op(m[2], [k \in 1..s[1] |-> v.inn # (<<k, l>> \in A)])
  IN v.out # Op(m[1], [l \in 1..s[2] |-> hid(l)])
Assignments(s) == SUBSET ((1..s[1]) \X (1..s[2]))
Table(m, v) == [s \in Sizes |-> {A \in Assignments(s) : Holds(m, v, s, A)}]

DataInv == [out |-> TRUE, hid |-> FALSE, inn |-> FALSE]
FactorInv == [out |-> FALSE, hid |-> FALSE, inn |-> TRUE]
BothInv == [out |-> TRUE, hid |-> FALSE, inn |-> TRUE]

Plain == [m \in Models |-> Table(m, NoInv)]
Same(m, q) == Plain[m] = Plain[q]
\* q is m for inverted factors or not
Kin(m, q) == Plain[q] \in {Table(m, NoInv), Table(m, FactorInv)}
\* q is m for inverted factors or not, inverted data or not
Clan(m, q) == Plain[q] \in {Table(m, NoInv), Table(m, FactorInv), Table(m, DataInv), Table(m, BothInv)}

\* every model has exactly one representative in the set S under relation R
Represents(S, R(_, _)) == \A m \in Models : Cardinality({q \in S : R(m, q)}) = 1
=============================================================================
