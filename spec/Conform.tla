------------------------------- MODULE Conform ------------------------------
(* Binding of the static semantics (Lom) to observations of the code.        *)
EXTENDS Lom, Json, IOUtils

Clause(name, ok) == IF ok THEN {} ELSE {name}

\* ---- C01 -------------------------------------------------------- products
FailedProd(e) ==
  IF ~HasShape(e.x, Dims(e.f)) THEN {"shape"}
  ELSE Clause("product", IsProduct(e.o, e.i, e.f, e.x))

\* ---- C02 --------------------------------------------- expected products
\* e.f[k][n][l] in 0..e.B, e.w = output * B^(K*L) rounded, e.r residue * 1000;
\* with e.h, at most so many dimensions are not decided and w is out of B^(K*h)
FailedFuzzy(e) ==
  IF ~HasShape(e.w, Dims(e.f)) THEN {"shape"}
  ELSE UNION { Clause("expectation", At(e.w, ix) = IF "h" \in DOMAIN e THEN ReducedExpected(e.o, e.i, RowsAt(e.f, ix), e.B, e.h)
                                         ELSE ExpectedWeight(e.o, e.i, RowsAt(e.f, ix), e.B))
               \cup Clause("inexact", At(e.r, ix) = 0) : ix \in Cells(e.f) }

\* ---- C03 ------------------------------------------------ canonical models
AllRows(K, L) == [1..K -> [1..L -> {-1, 1}]]
Neg(rows) == [k \in DOMAIN rows |-> [l \in DOMAIN rows[k] |-> -rows[k][l]]]
SameMeaning(e) ==
  \A K \in 2..3 : \A L \in 1..3 : \A rows \in AllRows(K, L) :
    Cell(e.o, e.i, rows) =
      (e.invd # Cell(e.uo, e.ui, IF e.invf THEN Neg(rows) ELSE rows))
RECURSIVE Map2(_, _)
NegArr(x, d) == Map2(x, d)
Map2(x, d) == IF d = 0 THEN -x ELSE [j \in DOMAIN x |-> Map2(x[j], d - 1)]
FailedCanon(e) ==
  CASE e.op = "canon" -> Clause("equivalent", SameMeaning(e))
                         \cup Clause("implemented", <<e.uo, e.ui>> \in Canonical)
    [] e.op = "invert" -> Clause("data", e.after = IF e.invd THEN Map2(e.x, Len(e.dims)) ELSE e.x)
                          \cup Clause("caller", e.caller = e.x)
                          \cup Clause("flags", e.invd \in BOOLEAN /\ e.invf \in BOOLEAN)
    [] e.op = "shaped" -> Clause("shape", HasShape(e.after, e.dims))
                          \cup Clause("factors", e.fdims = e.dims)

\* ---- C04/C08/C23 --------------------------- conditional of a single entry
\* e.lo: measured log odds (micro); e.lam, e.prior: lambda and prior log odds (micro)
\* e.own: TRUE iff the matrix is a factor of a layer (e.o, e.i, e.f, e.x, e.m)
\* e.par: layers of which the matrix is the child: [o, i, f, lam]
SiteLogOdds(e) ==
  (IF ~e.own THEN 0
   ELSE e.lam * (IF "w" \in DOMAIN e THEN WeightedScore(e.o, e.i, e.f, e.x, e.w, e.m, e.n, e.l)
                 ELSE Score(e.o, e.i, e.f, e.x, e.m, e.n, e.l)))
  + e.prior
  + MapThenSumSet(LAMBDA j : e.par[j].lam * PM(CellAt(e.par[j].o, e.par[j].i, e.par[j].f, e.ix)),
                  DOMAIN e.par)
SiteTol == 20
FailedStay(e) == Clause("others changed", e.same)
                 \cup Clause("missing entry drawn", \A j \in DOMAIN e.vals : e.vals[j] = 0)
\* a matrix (own: kind of the layer it is a factor of, of n factors; "none": data
\* of n dimensions that are not fixed) below layers of which only some support
\* children that are not fixed: what the conditionals of this specification do
\* not cover is refused, not sampled without its evidence
Supports(own, n, par) ==
  /\ Len(par) <= (CASE own = "none" -> IF n = 2 THEN 2 ELSE 0
                    [] own = "lom" -> IF n = 2 THEN 2 ELSE 1
                    [] OTHER -> 0)
  /\ \A j \in DOMAIN par : par[j].kind = "lom" /\ par[j].n = 2
FailedHierarchy(e) ==
  LET ok == Supports(e.own, e.n, e.par) IN
  Clause("supported hierarchy refused", ok => ~e.refused)
  \cup Clause("unsupported hierarchy sampled", ok \/ e.refused)
FailedSite(e) ==
  IF e.op = "stay" THEN FailedStay(e) ELSE
  IF e.op = "hierarchy" THEN FailedHierarchy(e) ELSE
  Clause("others changed", e.same)
  \cup Clause("stuck", e.lo # 2000000002)
  \cup Clause("conditional", Abs(e.lo - SiteLogOdds(e)) <= SiteTol)

\* ---- C05 --------------------------------- stationarity of a whole iteration
\* e.mats: the matrices; e.layers: [o, i, fac (indices of its factors), child
\* (index), base = exp(lambda)]; e.free: <<matrix, row, column>> of the free
\* entries; e.odds[m]: prior odds <<num, den>> of matrix m; e.K[s][t]: probability
\* (in 1/100000) of moving from state s to t, where bit b of s-1 is free entry b.
Bit(s, b) == ((s - 1) \div Pow(2, b - 1)) - 2 * ((s - 1) \div Pow(2, b))
RECURSIVE Assign(_, _, _, _)
Assign(mats, free, s, b) ==
  IF b > Len(free) THEN mats
  ELSE Assign([mats EXCEPT ![free[b][1]][free[b][2]][free[b][3]] = IF Bit(s, b) = 1 THEN 1 ELSE -1],
              free, s, b + 1)
AgreeOf(q, mats) ==
  Cardinality(Explained(q.o, q.i, [k \in DOMAIN q.fac |-> mats[q.fac[k]]], mats[q.child]))
StatWeights(e) ==
  LET S == 1..Pow(2, Len(e.free))
      M == [s \in S |-> Assign(e.mats, e.free, s, 1)]
      A == [s \in S |-> [j \in DOMAIN e.layers |-> AgreeOf(e.layers[j], M[s])]]
      lo == [j \in DOMAIN e.layers |-> Min({A[s][j] : s \in S})]
      RECURSIVE like(_, _)
      like(s, j) == IF j > Len(e.layers) THEN 1
                    ELSE Pow(e.layers[j].base, A[s][j] - lo[j]) * like(s, j + 1)
      RECURSIVE pri(_, _)
      pri(s, b) == IF b > Len(e.free) THEN 1
                   ELSE e.odds[e.free[b][1]][IF Bit(s, b) = 1 THEN 1 ELSE 2] * pri(s, b + 1)
  IN [s \in S |-> like(s, 1) * pri(s, 1)]
FailedStat(e) ==
  IF e.op = "site" THEN FailedSite(e) ELSE     \* one free entry, steep posterior
  LET W == StatWeights(e)
      S == DOMAIN W
      tot == MapThenSumSet(LAMBDA s : W[s], S)
      row(s) == MapThenSumSet(LAMBDA t : e.K[s][t], S)
  IN IF tot > 20000 THEN {"weights too large"}
     ELSE Clause("left the state space", \A s \in S : Abs(row(s) - 100000) <= Len(e.K))
          \cup Clause("stationary", \A t \in S :
                 Abs(MapThenSumSet(LAMBDA s : W[s] * e.K[s][t], S) - W[t] * 100000) <= tot)
          \cup Clause("stuck", \A s \in S : \A b \in DOMAIN e.free :
                 \E t \in S : Bit(s, b) # Bit(t, b) /\ e.K[s][t] > 0)

\* ---- C06 ------------------------------------------------------ dispersion
\* prior e.a, e.b in units of 1/e.q; e.s = logistic(lambda) in micro
\* e.w, if present: how many equal rows each row stands for
Tally(e, S) == IF "w" \in DOMAIN e THEN MapThenSumSet(LAMBDA ix : Multiplicity(e.w, ix), S) ELSE Cardinality(S)
RECURSIVE Decimals(_, _, _)     \* the first k decimals of num/den <= 1, without large products
Decimals(num, den, k) == IF k = 0 THEN num \div den
                         ELSE (num \div den) * Pow(10, k) + Decimals(10 * (num - den * (num \div den)), den, k - 1)
FailedLbda(e) ==
  LET nd  == Tally(e, Observed(e.f, e.x))
      p   == Tally(e, Explained(e.o, e.i, e.f, e.x))
      num == p * e.q + e.a
      den == nd * e.q + e.a + e.b
  IN Clause("side effect", e.same)
     \cup (IF 2 * num <= den THEN Clause("floor", e.s = 500000)
           ELSE Clause("value", IF den < 2000 THEN Abs(e.s * den - num * 1000000) <= den
                                ELSE Abs(e.s - Decimals(num, den, 6)) <= 2))
=============================================================================
