------------------------------- MODULE Static -------------------------------
(* Design facts about the static semantics, checked for every model and      *)
(* every small set of rows: the reduction to canonical models, the product   *)
(* form of expected products, the closed forms of expected densities.        *)
(* The rows are built entry by entry, so that every state is reachable and   *)
(* each is checked once.                                                     *)
EXTENDS Lom
CONSTANTS Ks, LMax, B
VARIABLES mo, K, L, v       \* v: K*L entries in 0..B, filled from the left
vars == <<mo, K, L, v>>

Init == mo \in Ops \X Ops /\ K \in Ks /\ L \in 1..LMax /\ v = <<>>
Fill == Len(v) < K * L /\ \E a \in 0..B : v' = Append(v, a)
        /\ UNCHANGED <<mo, K, L>>
Next == Fill
Spec == Init /\ [][Next]_vars

Full == Len(v) = K * L
Rows == [k \in 1..K |-> [l \in 1..L |-> v[(k - 1) * L + l]]]

\* ------------------------------------------------ the reduction to canonical
\* form: invert data if needed, invert factors if needed
Canon(m) ==
  LET o == m[1]
      i == m[2]
      \* pull a negation through the outer operator: AND(b..) = NOR(~b..) etc.
      Dual(p) == CASE p = "AND" -> "NOR" [] p = "NOR" -> "AND"
                   [] p = "OR" -> "NAND" [] p = "NAND" -> "OR"
                   [] OTHER -> p
      \* operator on inverted inputs
      alt == IF o \in {"XOR", "NXOR"} THEN {m} ELSE {m, <<Dual(o), NegOp(i)>>}
      \* inner operator on inverted factors
      inn(p) == IF p[2] \in {"XOR", "NXOR"} THEN {<<p, FALSE>>}
                ELSE {<<p, FALSE>>, <<<<p[1], Dual(p[2])>>, TRUE>>}
      all == {<<q, inv, neg>> : q \in UNION {{r[1] : r \in inn(p)} : p \in alt},
                                inv \in BOOLEAN, neg \in BOOLEAN}
      ok == {a \in all :
               LET d == IF a[2] THEN <<NegOp(a[1][1]), a[1][2]>> ELSE a[1]
               IN d \in Canonical
                  /\ \E p \in alt : \E r \in inn(p) : r[1] = a[1] /\ r[2] = a[3]}
      a == CHOOSE a \in ok : TRUE
  IN [model |-> IF a[2] THEN <<NegOp(a[1][1]), a[1][2]>> ELSE a[1],
      invd |-> a[2], invf |-> a[3]]

Bin == \A j \in DOMAIN v : v[j] \in {0, B}
BinRows(inv) == [k \in 1..K |-> [l \in 1..L |-> IF (Rows[k][l] = B) # inv THEN 1 ELSE -1]]
CanonEquivalent ==
  (Full /\ Bin) =>
     LET c == Canon(mo)
     IN Cell(mo[1], mo[2], BinRows(FALSE))
          = (c.invd # Cell(c.model[1], c.model[2], BinRows(c.invf)))

\* --------------------------------------------------------- expected products
\* direct expectation: sum over all binary factors of weight * product
Binary == [1..K -> [1..L -> {-1, 1}]]
WeightOf(b) ==
  LET RECURSIVE prod(_)
      prod(j) == IF j > K * L THEN 1
                 ELSE LET k == (j - 1) \div L + 1
                          l == (j - 1) - L * (k - 1) + 1
                      IN (IF b[k][l] = 1 THEN Rows[k][l] ELSE B - Rows[k][l]) * prod(j + 1)
  IN prod(1)
Direct == MapThenSumSet(WeightOf, {b \in Binary : Cell(mo[1], mo[2], b)})
ExpectationIsProductForm == Full => ExpectedWeight(mo[1], mo[2], Rows, B) = Direct
ExpectationInRange ==
  Full => LET w == ExpectedWeight(mo[1], mo[2], Rows, B)
          IN w >= 0 /\ w <= Pow(Pow(B, K), L)
ExpectationExtendsProduct ==
  (Full /\ Bin) => ExpectedWeight(mo[1], mo[2], Rows, B)
                     = IF Cell(mo[1], mo[2], BinRows(FALSE)) THEN Pow(Pow(B, K), L) ELSE 0

\* ---------------------------------------------------------------- densities
\* closed form for equal probabilities a/B
Same == \A j \in DOMAIN v : v[j] = v[1]
DensityClosedForm ==
  (Full /\ Same) =>
     LET a == v[1]
         M == Pow(B, K)
         q == InnerWeight(mo[2], [k \in 1..K |-> a], B)
         qc == CASE mo[2] = "AND" -> Pow(a, K)
                 [] mo[2] = "NAND" -> M - Pow(a, K)
                 [] mo[2] = "OR" -> M - Pow(B - a, K)
                 [] mo[2] = "NOR" -> Pow(B - a, K)
                 [] mo[2] = "XOR" -> K * a * Pow(B - a, K - 1)
                 [] mo[2] = "NXOR" -> M - K * a * Pow(B - a, K - 1)
         d == CASE mo[1] = "AND" -> Pow(q, L)
                 [] mo[1] = "NAND" -> Pow(M, L) - Pow(q, L)
                 [] mo[1] = "OR" -> Pow(M, L) - Pow(M - q, L)
                 [] mo[1] = "NOR" -> Pow(M - q, L)
                 [] mo[1] = "XOR" -> L * q * Pow(M - q, L - 1)
                 [] mo[1] = "NXOR" -> Pow(M, L) - L * q * Pow(M - q, L - 1)
     IN q = qc /\ d = ExpectedWeight(mo[1], mo[2], Rows, B)

\* ------------------------------------------- shortcuts used by observations
ReducedIsExpected ==
  Full => LET q == InnerWeights(mo[2], Rows, B)
          IN ReducedExpected(mo[1], mo[2], Rows, B, L) = ExpectedWeight(mo[1], mo[2], Rows, B)
             /\ Cardinality(OpenDims(q, Pow(B, K))) <= L
\* rows that occur several times: two rows per factor, the second the opposite
\* of the first
Twice(w, r) == IF w = 1 THEN <<r[1], r[2], r[2], r[2]>> ELSE <<r[1], r[1], r[2]>>
Rep(w) == IF w = 1 THEN <<1, 3>> ELSE <<2, 1>>
WeightsAreRepetitions ==
  (Full /\ Bin /\ K = 2) =>
     LET b == BinRows(FALSE)
         neg(r) == [l \in 1..L |-> -r[l]]
         f == [k \in 1..2 |-> <<b[k], neg(b[k])>>]
         w == <<Rep(1), Rep(2)>>
         F == [k \in 1..2 |-> Twice(k, f[k])]
     IN \A x \in {<<<<1, -1>>, <<0, 1>>>>, <<<<1, 1>>, <<1, -1>>>>, <<<<-1, 0>>, <<-1, 1>>>>} :
          LET X == Twice(1, [a \in 1..2 |-> Twice(2, x[a])])
          IN \A k \in 1..2 : \A l \in 1..L :
               /\ WeightedScore(mo[1], mo[2], f, x, w, k, 1, l) = Score(mo[1], mo[2], F, X, k, 1, l)
               /\ WeightedScore(mo[1], mo[2], f, x, w, k, 2, l) = Score(mo[1], mo[2], F, X, k, Len(F[k]), l)
=============================================================================
