------------------------------- MODULE Kernel -------------------------------
(* The Markov chain a single layer with fixed dispersion performs: one entry *)
(* of one factor is proposed to be flipped and the flip is accepted with the *)
(* metropolised Gibbs probability.  lambda = log(Base), so that all          *)
(* posterior weights and acceptance probabilities are exact rationals.       *)
EXTENDS Lom
CONSTANTS Models,      \* set of <<outer, inner>>
          DimSets,     \* set of sequences of extents, e.g. {<<1,2>>, <<1,1,2>>}
          Ls,          \* set of latent sizes
          Base,        \* exp(lambda)
          PriorOdds    \* set of <<num, den>>: odds of an entry being 1
VARIABLES mo,          \* model
          x,           \* data
          f,           \* factors
          po           \* prior odds
vars == <<mo, x, f, po>>

RECURSIVE Arr(_, _)
Arr(dims, S) == IF dims = <<>> THEN S ELSE [1..Head(dims) -> Arr(Tail(dims), S)]
RECURSIVE AllFactors(_, _)
AllFactors(dims, L) ==
  IF dims = <<>> THEN {<<>>}
  ELSE {<<g>> \o r : g \in [1..Head(dims) -> [1..L -> {-1, 1}]], r \in AllFactors(Tail(dims), L)}

Init == /\ mo \in Models
        /\ po \in PriorOdds
        /\ \E dims \in DimSets, L \in Ls : x \in Arr(dims, {-1, 0, 1}) /\ f \in AllFactors(dims, L)

Entries == {<<k, n, l>> : k \in 1..Len(f), n \in 1..3, l \in 1..3}
Sites == {t \in Entries : t[2] <= Len(f[t[1]]) /\ t[3] <= Len(f[1][1])}

Agree(g) == Cardinality(Explained(mo[1], mo[2], g, x))
Ones(g) == Cardinality({t \in Sites : g[t[1]][t[2]][t[3]] = 1})

\* posterior weight up to a constant, as <<numerator, denominator>>
Weight(g) == <<Pow(Base, Agree(g)) * Pow(po[1], Ones(g)), Pow(po[2], Ones(g))>>

\* odds of entry t of factors g being 1 given the rest, from the local score only
OddsOf(g, t) == LET s == Score(mo[1], mo[2], g, x, t[1], t[2], t[3])
                IN IF s >= 0 THEN <<Pow(Base, s) * po[1], po[2]>>
                   ELSE <<po[1], Pow(Base, -s) * po[2]>>

\* acceptance probability <<num, den>> of flipping entry t of factors g
AcceptOf(g, t) == LET o == OddsOf(g, t)
                  IN IF g[t[1]][t[2]][t[3]] = -1
                     THEN (IF o[1] >= o[2] THEN <<1, 1>> ELSE o)
                     ELSE (IF o[1] <= o[2] THEN <<1, 1>> ELSE <<o[2], o[1]>>)
Current(t) == f[t[1]][t[2]][t[3]]
Accept(t) == AcceptOf(f, t)

Flip(t) == /\ Accept(t)[1] > 0
           /\ f' = SetEntry(f, t[1], t[2], t[3], -Current(t))
           /\ UNCHANGED <<mo, x, po>>
Next == \E t \in Sites : Flip(t)
Spec == Init /\ [][Next]_vars

\* ------------------------------------------------------------- properties
TypeOK == \A t \in Sites : Current(t) \in {-1, 1}

\* the local score equals the global change of explained cells
LocalIsGlobal == \A t \in Sites :
  Score(mo[1], mo[2], f, x, t[1], t[2], t[3])
    = Agree(SetEntry(f, t[1], t[2], t[3], 1)) - Agree(SetEntry(f, t[1], t[2], t[3], -1))

\* W(f) P(f -> f') = W(f') P(f' -> f), checked on every transition
BalanceStep ==
  LET t  == CHOOSE t \in Sites : f'[t[1]][t[2]][t[3]] # f[t[1]][t[2]][t[3]]
      a  == AcceptOf(f, t)
      b  == AcceptOf(f', t)
      w  == Weight(f)
      w2 == Weight(f')
  IN w[1] * w2[2] * a[1] * b[2] = w2[1] * w[2] * b[1] * a[2]
DetailedBalance == [][BalanceStep]_vars

\* missing cells are neutral: dropping them from the slice changes no odds
MissingNeutral == \A t \in Sites :
  (\A ix \in Cells(f) : ix[t[1]] = t[2] => At(x, ix) = 0)
     => Score(mo[1], mo[2], f, x, t[1], t[2], t[3]) = 0
=============================================================================
