-------------------------------- MODULE Ibp ---------------------------------
(* Feature allocation of the OR-AND-IBP model.  A state is a pair (Z, U) of    *)
(* factors, Z[n][l], U[d][l] in {-1,1}.        *)
(* One sweep over Z updates row after row: dimensions that no other row uses   *)
(* are dropped, the others are redrawn, up to two new ones are appended.       *)
EXTENDS Outputs


Wid(a) == IF Len(a) = 0 THEN 0 ELSE Len(a[1])
Rect(a, w) == \A r \in DOMAIN a : Len(a[r]) = w /\ \A j \in 1..w : a[r][j] \in {-1, 1}
Col(a, l) == [r \in DOMAIN a |-> a[r][l]]
Users(Z, l) == {n \in DOMAIN Z : Z[n][l] = 1}

\* ---------------------------------------------------------- well-formedness
\* (Z2, U2) can result from (Z, U) by one sweep over the N rows
WellFormed(Z, U, Z2, U2) ==
  /\ Len(Z2) = Len(Z) /\ Len(U2) = Len(U)
  /\ Rect(Z2, Wid(Z2)) /\ Rect(U2, Wid(Z2))
\* some c surviving columns in their order, followed by columns each first
\* used by the row that introduced it, at most two per row.  What is fixed goes
\* with its dimension, and nothing is fixed in a new one: F = <<FZ, FU>> are the
\* masks of the two factors
Survive(c, A, B) ==
  LET RECURSIVE go(_, _)
      go(i, j) == IF i > c THEN TRUE
                  ELSE IF j > Wid(A[1]) THEN FALSE
                  ELSE ((\A q \in DOMAIN A : Col(B[q], i) = Col(A[q], j)) /\ go(i + 1, j + 1)) \/ go(i, j + 1)
  IN go(1, 1)
Introduced(Z2, l) == Min(Users(Z2, l))
Masked(e) == "F" \in DOMAIN e
Sweep(e) ==
  \E c \in 0..MinOf(Wid(e.U), Wid(e.U2)) :
    /\ Survive(c, IF Masked(e) THEN <<e.U>> \o e.F ELSE <<e.U>>, IF Masked(e) THEN <<e.U2>> \o e.F2 ELSE <<e.U2>>)
    /\ \A n \in DOMAIN e.Z2 : Cardinality({l \in (c + 1)..Wid(e.Z2) : Introduced(e.Z2, l) = n}) <= 2
    /\ Masked(e) => \A l \in (c + 1)..Wid(e.U2) : \A q \in 1..2 : \A r \in DOMAIN e.F2[q] : e.F2[q][r][l] = 0
Shape(a, b) == Len(a) = Len(b) /\ \A r \in DOMAIN a : Len(a[r]) = Len(b[r])
FailedSweep(e) ==
  IF ~WellFormed(e.Z, e.U, e.Z2, e.U2) THEN {"factors out of step"}
  ELSE IF Masked(e) /\ ~(Shape(e.F2[1], e.Z2) /\ Shape(e.F2[2], e.U2)) THEN {"fixed entries out of step"}
  ELSE Clause("unused dimension", \A l \in 1..Wid(e.Z2) : Users(e.Z2, l) # {})
       \cup (IF \A l \in 1..Wid(e.Z2) : Users(e.Z2, l) # {}
             THEN Clause("sweep", Sweep(e)) ELSE {})
\* an update of U alone
FailedU(e) ==
  IF ~(e.Z2 = e.Z /\ WellFormed(e.Z, e.U, e.Z2, e.U2) /\ Wid(e.U2) = Wid(e.U)) THEN {"feature update"}
  ELSE Clause("fixed entries changed", Masked(e) => e.F2 = e.F)
       \cup Clause("fixed feature", Masked(e) /\ Shape(e.F[2], e.U) =>
                     \A d \in DOMAIN e.U : \A l \in DOMAIN e.U[d] : e.F[2][d][l] # 0 => e.U2[d][l] = e.U[d][l])

\* ------------------------------------------------------------ recorded samples
\* sample s padded with inactive dimensions to the width of the trace
Padded(a, t) == /\ Len(t) = Len(a)
                /\ \A r \in DOMAIN a : /\ Len(t[r]) >= Len(a[r])
                                       /\ \A j \in DOMAIN t[r] : t[r][j] = IF j <= Len(a[r]) THEN a[r][j] ELSE -1
FailedTrace(e) ==
  IF Len(e.tz) # Len(e.Zs) \/ Len(e.tu) # Len(e.Us) THEN {"number of samples"}
  ELSE Clause("recorded allocation", \A s \in DOMAIN e.Zs : Padded(e.Zs[s], e.tz[s]))
       \cup Clause("recorded features", \A s \in DOMAIN e.Us : Padded(e.Us[s], e.tu[s]))
       \cup Clause("widths", \A s \in DOMAIN e.tz : Wid(e.tz[s]) = Wid(e.tu[s]))

\* ---------------------------------------------------- conditional of one row
\* e.us: feature columns of the dimensions other rows use; e.m: by how many;
\* e.z0: whether this row used them; e.sg: feature columns of dimensions only this
\* row uses; e.x: data of the row; likelihood of a cell b : 1 for right : wrong;
\* prior of a feature e.q[1] : e.q[2]; number of new dimensions Poisson with
\* mean e.a[1] / e.a[2]; e.out: sequence of [z, nu, p]
Others(e, z, l) == {q \in DOMAIN z : q # l /\ z[q] = 1}
ExplainedAt(e, z, l, d, withsingles) ==
  \/ \E q \in Others(e, z, l) : e.us[q][d] = 1
  \/ withsingles /\ \E q \in DOMAIN e.sg : e.sg[q][d] = 1
RowScore(e, z, l) ==
  MapThenSumSet(LAMBDA d : IF e.us[l][d] = 1 /\ ~ExplainedAt(e, z, l, d, TRUE) THEN e.x[d] ELSE 0, DOMAIN e.x)
Mass(e, pred(_)) == MapThenSumSet(LAMBDA j : IF pred(e.out[j]) THEN e.out[j].p ELSE 0, DOMAIN e.out)
Odds(b, s, n, d) == IF s >= 0 THEN <<n * Pow(b, s), d>> ELSE <<n, d * Pow(b, -s)>>
\* p1 : p0 = odds, up to the rounding of the recorded probabilities
InRatio(e, p1, p0, o) == Abs(p1 * o[2] - p0 * o[1]) <= (Len(e.out) + 1) * (o[1] + o[2])

\* z drawn dimension by dimension in the order o
DrawnIn(e, o) ==
  \A j \in DOMAIN o :
    \A fixedz \in [{o[q] : q \in 1..(j - 1)} -> {-1, 1}] :
      LET z == [l \in DOMAIN e.us |-> IF l \in DOMAIN fixedz THEN fixedz[l] ELSE e.z0[l]]
          agree(r) == \A l \in DOMAIN fixedz : r.z[l] = fixedz[l]
          p1 == Mass(e, LAMBDA r : agree(r) /\ r.z[o[j]] = 1)
          p0 == Mass(e, LAMBDA r : agree(r) /\ r.z[o[j]] = -1)
      IN InRatio(e, p1, p0, Odds(e.b, RowScore(e, z, o[j]), e.m[o[j]], e.N - e.m[o[j]]))
Perms(S) == {o \in [1..Cardinality(S) -> S] : \A a, b \in 1..Cardinality(S) : a # b => o[a] # o[b]}

\* number of new dimensions given z: marginal over their features
Off(e, z, d) == ~ExplainedAt(e, z, 0, d, FALSE)
Fact(k) == IF k = 2 THEN 2 ELSE 1
\* relative to no new dimension; p = P(a cell is not emitted by k new dimensions)
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a - b * (a \div b))
Reduced(o) == LET g == Gcd(o[1], o[2]) IN <<o[1] \div g, o[2] \div g>>
NewOdds(e, z, k) ==
  LET den == Pow(e.q[1] + e.q[2], k)
      p   == Pow(e.q[2], k)
      tn  == Cardinality({d \in DOMAIN e.x : e.x[d] = -1 /\ Off(e, z, d)})
      fn  == Cardinality({d \in DOMAIN e.x : e.x[d] = 1 /\ Off(e, z, d)})
  IN Reduced(<< Pow(e.a[1], k) * Pow(p * e.b + (den - p), tn) * Pow(p + (den - p) * e.b, fn),
        Pow(e.a[2], k) * Fact(k) * Pow(den * e.b, tn) * Pow(den, fn) >>)
Zs(e) == {e.out[j].z : j \in DOMAIN e.out}
NumberOK(e) ==
  \A z \in Zs(e) : \A k \in 1..2 :
    InRatio(e, Mass(e, LAMBDA r : r.z = z /\ Len(r.nu) = k), Mass(e, LAMBDA r : r.z = z /\ Len(r.nu) = 0),
            NewOdds(e, z, k))
\* features of new dimensions: odds of the prior times the likelihood ratio, for
\* the last of them given the other
FeatureOK(e, k, last) ==
  \A z \in Zs(e) : \A d \in DOMAIN e.x :
    \A c \in (IF k = 1 THEN {<<>>} ELSE {r.nu[3 - last] : r \in {e.out[j] : j \in {q \in DOMAIN e.out : Len(e.out[q].nu) = 2}}}) :
      LET sel(r) == r.z = z /\ Len(r.nu) = k /\ (k = 1 \/ r.nu[3 - last] = c)
          s == IF Off(e, z, d) /\ (k = 1 \/ c[d] # 1) THEN e.x[d] ELSE 0
      IN InRatio(e, Mass(e, LAMBDA r : sel(r) /\ r.nu[last][d] = 1), Mass(e, LAMBDA r : sel(r) /\ r.nu[last][d] = -1),
                 Odds(e.b, s, e.q[1], e.q[2]))
\* the one drawn before it, while the last was inactive
FirstOK(e, first) ==
  \A z \in Zs(e) : \A d \in DOMAIN e.x :
    LET two(r) == r.z = z /\ Len(r.nu) = 2
    IN InRatio(e, Mass(e, LAMBDA r : two(r) /\ r.nu[first][d] = 1), Mass(e, LAMBDA r : two(r) /\ r.nu[first][d] = -1),
               Odds(e.b, IF Off(e, z, d) THEN e.x[d] ELSE 0, e.q[1], e.q[2]))
FailedRow(e) ==
  Clause("outcome", \A j \in DOMAIN e.out : Len(e.out[j].z) = Len(e.us) /\ Len(e.out[j].nu) <= 2)
  \cup Clause("shared dimensions", \E o \in Perms(DOMAIN e.us) : DrawnIn(e, o))
  \cup (IF e.new THEN Clause("number of new dimensions", NumberOK(e))
                      \cup Clause("features of a new dimension", FeatureOK(e, 1, 1))
                      \cup Clause("features of new dimensions", \E last \in 1..2 : FeatureOK(e, 2, last) /\ FirstOK(e, 3 - last))
        ELSE {})
\* a row whose data the dimensions in use explain: e.p[k + 1] for k new ones
FailedCount(e) ==
  Clause("dimensions in use", e.kept)
  \cup Clause("number of new dimensions", \A k \in 1..2 :
         Abs(e.p[k + 1] * Pow(e.a[2], k) * Fact(k) - e.p[1] * Pow(e.a[1], k)) <= 4 * (Pow(e.a[2], k) * Fact(k) + Pow(e.a[1], k)))
FailedIbp(e) == CASE e.op = "row" -> FailedRow(e)
                  [] e.op = "sweep" -> FailedSweep(e)
                  [] e.op = "u" -> FailedU(e)
                  [] e.op = "trace" -> FailedTrace(e)
                  [] e.op = "count" -> FailedCount(e)
=============================================================================
