------------------------------- MODULE MC_Max -------------------------------
(* MAX-AND machine: factor entries are flipped with metropolised Gibbs        *)
(* probabilities (likelihood ratios are exact rationals: lam in 1/B), the     *)
(* dispersion is updated greedily.  Checked: the explaining-away computation  *)
(* over an order of decreasing dispersion is the change of the likelihood,    *)
(* detailed balance, and the consistency of greedy assignments.               *)
EXTENDS Max
CONSTANTS B, LamVals, N, D, L
VARIABLES f, x, lam
vars == <<f, x, lam>>
Init == /\ \E z \in [1..N -> [1..L -> {-1, 1}]], u \in [1..D -> [1..L -> {-1, 1}]] : f = <<z, u>>
         /\ x \in [1..N -> [1..D -> {-1, 0, 1}]]
         /\ lam \in [1..L + 1 -> LamVals]
Sites == {t \in {<<k, n, l>> : k \in 1..2, n \in 1..4, l \in 1..L} : t[2] <= Len(f[t[1]])}
P(v, a) == CASE v = 0 -> 1 [] v = 1 -> a [] v = -1 -> B - a
RECURSIVE Prod(_, _)
Prod(S, w) == IF S = {} THEN 1 ELSE LET c == CHOOSE c \in S : TRUE IN w[c] * Prod(S \ {c}, w)
Like(g) == Prod(Cells(g), [ix \in Cells(g) |-> P(At(x, ix), lam[Emitter(lam, g, ix)])])
\* ratio computed cell by cell along an order of decreasing dispersion, as a
\* sampler does: older dimensions explain the cell away, otherwise the first
\* younger active one (or the baseline) is compared with
Orders == {o \in [1..L -> 1..L] : /\ \A a, b \in 1..L : a # b => o[a] # o[b]
                                  /\ \A a, b \in 1..L : a < b => lam[o[a]] >= lam[o[b]]}
RatioAt(o, t, ix) ==
  LET p == CHOOSE p \in 1..L : o[p] = t[3]
      A == ActiveDims(f, ix) \ {t[3]}
      v == At(x, ix)
      other == {k \in 1..2 : k # t[1]}
      rest == {q \in (p + 1)..L : o[q] \in A}
      cmp == IF rest = {} THEN L + 1 ELSE o[Min(rest)]
  IN IF (\E k \in other : f[k][ix[k]][t[3]] # 1) \/ (\E q \in 1..(p - 1) : o[q] \in A) THEN <<1, 1>>
     ELSE <<P(v, lam[t[3]]), P(v, lam[cmp])>>
LocalIsGlobal == \A t \in Sites : \A o \in Orders :
  LET S == {SliceIx(sx, t[1], t[2]) : sx \in Slice(f, t[1], t[2])}
      num == Prod(S, [ix \in S |-> RatioAt(o, t, ix)[1]])
      den == Prod(S, [ix \in S |-> RatioAt(o, t, ix)[2]])
  IN num * Like(SetEntry(f, t[1], t[2], t[3], -1)) = den * Like(SetEntry(f, t[1], t[2], t[3], 1))
Flip == \E t \in Sites :
  /\ Like(SetEntry(f, t[1], t[2], t[3], -f[t[1]][t[2]][t[3]])) > 0
  /\ f' = SetEntry(f, t[1], t[2], t[3], -f[t[1]][t[2]][t[3]])
  /\ UNCHANGED <<x, lam>>
Next == Flip
Spec == Init /\ [][Next]_vars
\* the emitting dimension does not depend on how ties are resolved
TiesNeutral == \A ix \in Cells(f) : \A l \in ActiveDims(f, ix) :
  lam[l] <= lam[Emitter(lam, f, ix)]
\* greedy assignments, as a set of micro values
Micro(r) == (2 * r[1] * 1000000 + r[2]) \div (2 * r[2])
RECURSIVE Assignments(_, _)
Assignments(left, claimed) ==
  IF left = {} THEN {[l \in {} |-> 0]}
  ELSE LET r == [l \in left |-> Rate(CellsOf(f, l) \ claimed, x)]
           best == {l \in left : \A q \in left : Leq(r[q], r[l])}
       IN UNION {{(l :> Micro(r[l])) @@ a : a \in Assignments(left \ {l}, claimed \cup CellsOf(f, l))} : l \in best}
Complete(a) == LET r == Rate(Cells(f) \ UNION {CellsOf(f, l) : l \in 1..L}, x)
                   s == Min({a[l] : l \in 1..L})
               IN [l \in 1..L + 1 |-> IF l <= L THEN a[l] ELSE MinOf(Micro(r), s)]
GreedyOK == \A a \in Assignments(1..L, {}) :
  LET c == Complete(a)
  IN /\ Greedy(c, f, x, 1..L, {}) /\ Baseline(c, f, x)
     /\ \A l \in 1..L : c[L + 1] <= c[l] /\ c[l] > 0 /\ c[l] < 1000000
     \* missing cells count nowhere
     /\ (\A ix \in Cells(f) : At(x, ix) = 0) => \A l \in 1..L + 1 : c[l] = 500000
=============================================================================
