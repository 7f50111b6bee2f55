------------------------------- MODULE Missing ------------------------------
(* Data cells marked 0 are missing.  A row of the data of which every cell is  *)
(* missing is as good as absent: MC_Missing checks, for every quantity the     *)
(* conditionals and updates of all models are made of, that dropping such a    *)
(* row together with its row of the first factor changes nothing for the rest, *)
(* and that the entries of that row follow their prior alone.                  *)
EXTENDS Lom
Mx == INSTANCE Max
Th == INSTANCE Threshold
CONSTANTS N, D, L
VARIABLES st                      \* [f, x, q, lam, gone]
Without(a, n) == [j \in 1..(Len(a) - 1) |-> IF j < n THEN a[j] ELSE a[j + 1]]
Blank == [d \in 1..D |-> 0]
Rows(w, S) == [1..w -> S]
Init == \E z \in Rows(N, Rows(L, {-1, 1})), u \in Rows(D, Rows(L, {-1, 1})), g \in 1..N,
           xs \in Rows(N - 1, Rows(D, {-1, 0, 1})), q \in Rows(D, {1, 2}) :
          st = [f |-> <<z, u>>, q |-> q, gone |-> g,
                x |-> [j \in 1..N |-> IF j = g THEN Blank ELSE xs[IF j < g THEN j ELSE j - 1]]]
Next == FALSE /\ UNCHANGED st
Spec == Init /\ [][Next]_st
f2 == <<Without(st.f[1], st.gone), st.f[2]>>
x2 == Without(st.x, st.gone)
At2(n) == IF n < st.gone THEN n ELSE n - 1
\* log dispersions of MAX-AND: distinct values, tied values, baseline
Lams == {[l \in 1..(L + 1) |-> 900 - 100 * l], [l \in 1..(L + 1) |-> 500], [l \in 1..(L + 1) |-> 100 * l]}
Lg(v) == [l \in DOMAIN v |-> 7 * v[l] + 3]
Lh(v) == [l \in DOMAIN v |-> 1000 - 5 * v[l]]

CanonicalAbsent ==
  \A m \in Canonical :
    /\ \A d \in 1..D, l \in 1..L : Score(m[1], m[2], st.f, st.x, 2, d, l) = Score(m[1], m[2], f2, x2, 2, d, l)
    /\ \A n \in (1..N) \ {st.gone}, l \in 1..L :
         Score(m[1], m[2], st.f, st.x, 1, n, l) = Score(m[1], m[2], f2, x2, 1, At2(n), l)
    /\ \A l \in 1..L : Score(m[1], m[2], st.f, st.x, 1, st.gone, l) = 0
    /\ Cardinality(Explained(m[1], m[2], st.f, st.x)) = Cardinality(Explained(m[1], m[2], f2, x2))
    /\ Cardinality(Observed(st.f, st.x)) = Cardinality(Observed(f2, x2))
MaxAbsent ==
  /\ \A v \in Lams :
      /\ \A d \in 1..D, l \in 1..L : Mx!MaxScore(v, Lg(v), Lh(v), st.f, st.x, 2, d, l) = Mx!MaxScore(v, Lg(v), Lh(v), f2, x2, 2, d, l)
      /\ \A n \in (1..N) \ {st.gone}, l \in 1..L :
           Mx!MaxScore(v, Lg(v), Lh(v), st.f, st.x, 1, n, l) = Mx!MaxScore(v, Lg(v), Lh(v), f2, x2, 1, At2(n), l)
      /\ \A l \in 1..L : Mx!MaxScore(v, Lg(v), Lh(v), st.f, st.x, 1, st.gone, l) = 0
  /\ \A l \in 1..L : \A c \in SUBSET (1..L) :
       LET claimed(f) == UNION {Mx!CellsOf(f, k) : k \in c}
       IN Mx!Rate(Mx!CellsOf(st.f, l) \ claimed(st.f), st.x) = Mx!Rate(Mx!CellsOf(f2, l) \ claimed(f2), x2)
  /\ LET rest(f) == Cells(f) \ UNION {Mx!CellsOf(f, k) : k \in 1..L}
     IN Mx!Rate(rest(st.f), st.x) = Mx!Rate(rest(f2), x2)
ThresholdAbsent ==
  /\ \A d \in 1..D, l \in 1..L : Th!QScore(st.f, st.x, st.q, 2, d, l) = Th!QScore(f2, x2, st.q, 2, d, l)
  /\ \A n \in (1..N) \ {st.gone}, l \in 1..L :
       Th!QScore(st.f, st.x, st.q, 1, n, l) = Th!QScore(f2, x2, st.q, 1, At2(n), l)
  /\ \A l \in 1..L : Th!QScore(st.f, st.x, st.q, 1, st.gone, l) = 0
  /\ \A d \in 1..D, v \in Th!QS : Th!QExplainedIn(st.x, st.f[1], st.f[2], d, v) = Th!QExplainedIn(x2, f2[1], f2[2], d, v)
  /\ Th!QExplained(st.x, st.f[1], st.f[2], st.q) = Th!QExplained(x2, f2[1], f2[2], st.q)
  /\ Th!QObserved(st.x, st.f[1], st.f[2]) = Th!QObserved(x2, f2[1], f2[2])
=============================================================================
