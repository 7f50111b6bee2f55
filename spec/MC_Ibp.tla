------------------------------- MODULE MC_Ibp -------------------------------
(* The sweep of the feature allocation as a state machine, row by row.        *)
(* Checked: the one-sweep relation used to judge the implementation contains   *)
(* every result of the row-wise design and is not weaker than its effects,     *)
(* every dimension stays in use, and redrawing a shared dimension with odds    *)
(* (users)/(rest) times the likelihood ratio leaves the posterior of the       *)
(* exchangeable allocation invariant (detailed balance).                       *)
EXTENDS Ibp, SequencesExt
CONSTANTS N, D, MaxW, Base, XAll
VARIABLES Z, U, n, Z0, U0, x
vars == <<Z, U, n, Z0, U0, x>>
Mats(r, w) == [1..r -> [1..w -> {-1, 1}]]
Init == /\ \E w \in 0..1 : Z \in Mats(N, w) /\ U \in Mats(D, w)
        /\ n = 0 /\ Z0 = Z /\ U0 = U
        /\ x \in IF XAll THEN [1..N -> [1..D -> {-1, 1}]] ELSE {[r \in 1..N |-> [d \in 1..D |-> 1]]}
Others2(r, l) == Cardinality(Users(Z, l) \ {r})
Keep(a, S) == LET q == SetToSortSeq(S, <) IN [r \in DOMAIN a |-> [j \in 1..Len(q) |-> a[r][q[j]]]]
\* row r chooses zr on the shared dimensions S, drops the rest, appends nu
Row(r, zr, S, nu) ==
  LET Zr == [Z EXCEPT ![r] = [l \in 1..Wid(Z) |-> IF l \in S THEN zr[l] ELSE Z[r][l]]]
      Zk == Keep(Zr, S)
      Uk == Keep(U, S)
  IN /\ Z' = [q \in 1..N |-> Zk[q] \o [j \in 1..Len(nu) |-> IF q = r THEN 1 ELSE -1]]
     /\ U' = [d \in 1..D |-> Uk[d] \o [j \in 1..Len(nu) |-> nu[j][d]]]
Step ==
  /\ n < N
  /\ LET r == n + 1
         S == {l \in 1..Wid(Z) : Others2(r, l) > 0}
     IN \E zr \in [S -> {-1, 1}] : \E k \in 0..2 : \E nu \in [1..k -> [1..D -> {-1, 1}]] :
          Cardinality(S) + k <= MaxW /\ Row(r, zr, S, nu)
  /\ n' = n + 1
  /\ UNCHANGED <<Z0, U0, x>>
NewSweep == /\ n = N /\ n' = 0 /\ Z0' = Z /\ U0' = U /\ UNCHANGED <<Z, U, x>>
Next == Step \/ NewSweep
Spec == Init /\ [][Next]_vars
Aligned == WellFormed(Z0, U0, Z, U)
\* dimensions in use by nobody only ever come from the start
UsedAfter == n = N => \A l \in 1..Wid(Z) : Users(Z, l) # {}
Relation == n = N => FailedSweep([Z |-> Z0, U |-> U0, Z2 |-> Z, U2 |-> U]) = {}
\* ------------------------------------------------------------ stationarity
F(m) == LET RECURSIVE g(_)
            g(j) == IF j <= 1 THEN 1 ELSE j * g(j - 1) IN g(m)
Alloc(z) == LET RECURSIVE g(_)
                g(l) == IF l > Wid(z) THEN 1
                        ELSE LET M == Cardinality(Users(z, l))
                             IN (IF M = 0 THEN 1 ELSE F(M - 1) * F(N - M)) * g(l + 1)
            IN g(1)
Agreeing(z) == Cardinality({ix \in (1..N) \X (1..D) :
   x[ix[1]][ix[2]] = PM(\E l \in 1..Wid(z) : z[ix[1]][l] = 1 /\ U[ix[2]][l] = 1)})
Post(z) == Alloc(z) * Pow(Base, Agreeing(z))
Balance == \A r \in 1..N : \A l \in 1..Wid(Z) :
  Others2(r, l) > 0 =>
    LET zp == [Z EXCEPT ![r][l] = 1]
        zm == [Z EXCEPT ![r][l] = -1]
        s  == MapThenSumSet(LAMBDA d : IF U[d][l] = 1 /\ ~(\E q \in 1..Wid(Z) : q # l /\ Z[r][q] = 1 /\ U[d][q] = 1)
                                       THEN x[r][d] ELSE 0, 1..D)
        o  == Odds(Base, s, Others2(r, l), N - Others2(r, l))
    IN Post(zp) * o[2] = Post(zm) * o[1]
=============================================================================
