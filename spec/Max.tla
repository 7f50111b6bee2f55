-------------------------------- MODULE Max ---------------------------------
(* MAX-AND layers: every latent dimension l emits with its own probability,   *)
(* a cell emits with the largest probability among the dimensions active in   *)
(* both factors, or with the baseline if there is none.  lam has one value    *)
(* per dimension and the baseline at the end.                                 *)
EXTENDS Lom, Json, IOUtils

Clause(name, ok) == IF ok THEN {} ELSE {name}
NDim(f) == Len(f[1][1])
ActiveDims(f, ix) == {l \in 1..NDim(f) : \A k \in DOMAIN f : f[k][ix[k]][l] = 1}
\* index of the emitting dimension (any of equals), L+1 if none is active
Emitter(lam, f, ix) ==
  LET A == ActiveDims(f, ix)
  IN IF A = {} THEN NDim(f) + 1 ELSE CHOOSE l \in A : \A q \in A : lam[q] <= lam[l]

\* ---- C14: change of the log-likelihood, lp[l] = log lam[l], lm[l] = log(1 - lam[l])
MaxScore(lam, lp, lm, f, x, k, n, l) ==
  LET fp == SetEntry(f, k, n, l, 1)
      fm == SetEntry(f, k, n, l, -1)
      gain(sx) == LET ix == SliceIx(sx, k, n)
                      v  == At(x, ix)
                      a  == Emitter(lam, fp, ix)
                      b  == Emitter(lam, fm, ix)
                  IN CASE v = 0 -> 0
                       [] v = 1 -> lp[a] - lp[b]
                       [] v = -1 -> lm[a] - lm[b]
  IN MapThenSumSet(gain, Slice(f, k, n))
FailedMaxSite(e) ==
  Clause("others changed", e.same)
  \cup Clause("stuck", e.lo # 2000000002)
  \cup Clause("conditional",
         Abs(e.lo - MaxScore(e.lam, e.lp, e.lm, e.f, e.x, e.m, e.n, e.l)) <= 60)

\* ---- C15: greedy assignment of the emission probabilities
CellsOf(f, l) == {ix \in Cells(f) : \A k \in DOMAIN f : f[k][ix[k]][l] = 1}
Pos(S, x) == Cardinality({ix \in S : At(x, ix) = 1})
Neg(S, x) == Cardinality({ix \in S : At(x, ix) = -1})
Rate(S, x) == <<Pos(S, x) + 1, Pos(S, x) + Neg(S, x) + 2>>
Leq(a, b) == a[1] * b[2] <= b[1] * a[2]
\* v (micro) is the rate a (up to rounding)
Is(v, a) == Abs(v * a[2] - a[1] * 1000000) <= a[2]
RECURSIVE Greedy(_, _, _, _, _)
Greedy(lam, f, x, left, claimed) ==
  IF left = {} THEN TRUE
  ELSE LET r == [l \in left |-> Rate(CellsOf(f, l) \ claimed, x)]
           top == {l \in left : \A q \in left : Leq(r[q], r[l])}
           idle == {l \in top : CellsOf(f, l) \subseteq claimed}   \* their order does not matter
       IN IF idle # {} THEN (\A l \in idle : Is(lam[l], r[l])) /\ Greedy(lam, f, x, left \ idle, claimed)
          ELSE \E l \in top : /\ Is(lam[l], r[l])
                           /\ Greedy(lam, f, x, left \ {l}, claimed \cup CellsOf(f, l))
SmallestOf(lam, L) == Min({lam[l] : l \in 1..L})
Baseline(lam, f, x) ==
  LET L == NDim(f)
      r == Rate(Cells(f) \ UNION {CellsOf(f, l) : l \in 1..L}, x)
  IN IF r[1] * 1000000 <= SmallestOf(lam, L) * r[2] THEN Is(lam[L + 1], r)
     ELSE Abs(lam[L + 1] - SmallestOf(lam, L)) <= 1
FailedMaxLam(e) ==
  IF Len(e.lam) # NDim(e.f) + 1 THEN {"length"}
  ELSE Clause("side effect", e.same)
       \cup Clause("greedy", Greedy(e.lam, e.f, e.x, 1..NDim(e.f), {}))
       \cup Clause("baseline", Baseline(e.lam, e.f, e.x))

\* ---- C15: outputs, in the unit of lam (1e-5), times den
MaxCell(lam, f, ix) == IF ActiveDims(f, ix) = {} THEN 0 ELSE lam[Emitter(lam, f, ix)]
OnesAt(t, r, l) == Cardinality({s \in DOMAIN t : t[s][r][l] = 1})
Thresholded(t) == [r \in DOMAIN t[1] |-> [l \in DOMAIN t[1][r] |->
                     IF 2 * OnesAt(t, r, l) > Len(t) THEN 1 ELSE -1]]
\* expected emission at the marginals: dimension l emits if it is active and no
\* larger (or equal, lower numbered) one is
Beats(lam, q, l) == lam[q] > lam[l] \/ (lam[q] = lam[l] /\ q < l)
MeanCell(lam, tr, ix) ==
  LET T == Len(tr[1])
      L == Len(tr[1][1][1])
      M == T * T
      q == [l \in 1..L |-> OnesAt(tr[1], ix[1], l) * OnesAt(tr[2], ix[2], l)]
      RECURSIVE prod(_, _)
      prod(l, j) == IF j > L THEN 1
                    ELSE (IF j = l THEN q[l] ELSE IF Beats(lam, j, l) THEN M - q[j] ELSE M) * prod(l, j + 1)
  IN MapThenSumSet(LAMBDA l : lam[l] * prod(l, 1), 1..L)
DenOf(e) == LET T == Len(e.tr[1]) IN
            CASE e.tech = "factor_mean" -> Pow(T, 2 * Len(e.tr[1][1][1]))
              [] e.tech = "mc" -> T
              [] OTHER -> 1
WantOut(e, lam, ix) ==
  CASE e.tech = "point_estimate" -> MaxCell(lam, e.cur, ix)
    [] e.tech = "factor_map" -> MaxCell(lam, [k \in DOMAIN e.tr |-> Thresholded(e.tr[k])], ix)
    [] e.tech = "mc" -> MapThenSumSet(LAMBDA s : MaxCell(e.ltr[s], [k \in DOMAIN e.tr |-> e.tr[k][s]], ix),
                                      DOMAIN e.tr[1])
    [] e.tech = "factor_mean" -> MeanCell(lam, e.tr, ix)
\* e.lams: dispersions the summary may be based on (current, mean); e.v: output in 1e-5
FailedMaxOut(e) ==
  LET den == DenOf(e)
      v(ix) == IF e.mapped THEN At(e.v, ix) ELSE (At(e.v, ix) + 100000) \div 2
      ok(lam) == \A ix \in Cells(e.cur) : Abs(v(ix) * den - WantOut(e, lam, ix)) <= 3 * den
  IN IF ~HasShape(e.v, Dims(e.cur)) THEN {"shape"}
     ELSE Clause(e.tech, \E j \in DOMAIN e.lams : ok(e.lams[j]))
FailedMax(e) == CASE e.op = "site" -> FailedMaxSite(e)
                  [] e.op = "lam" -> FailedMaxLam(e)
                  [] e.op = "out" -> FailedMaxOut(e)
=============================================================================
