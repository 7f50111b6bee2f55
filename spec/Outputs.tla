------------------------------ MODULE Outputs -------------------------------
(* What a layer's outputs are, in terms of the recorded samples of its        *)
(* factors.  tr[k] is the sequence of samples of factor k (a fixed factor     *)
(* contributes its value as every sample), cur the current factors.           *)
EXTENDS Lom, Json, IOUtils

Clause(name, ok) == IF ok THEN {} ELSE {name}
\* number of samples in which the entry is 1
Ones(t, r, l) == Cardinality({s \in DOMAIN t : t[s][r][l] = 1})
MapOf(t) == [r \in DOMAIN t[1] |-> [l \in DOMAIN t[1][r] |->
               IF 2 * Ones(t, r, l) > Len(t) THEN 1 ELSE -1]]
MeanOf(t) == [r \in DOMAIN t[1] |-> [l \in DOMAIN t[1][r] |-> Ones(t, r, l)]]
SampleOf(tr, s) == [k \in DOMAIN tr |-> tr[k][s]]

B01(b) == IF b THEN 1 ELSE 0
\* probability of emitting a 1, in units of 1/Den
Den(tech, tr) ==
  LET T == Len(tr[1]) IN
  CASE tech \in {"point_estimate", "factor_map"} -> 1
    [] tech = "mc" -> T
    [] tech \in {"factor_mean", "factor_mean_old"} -> Pow(T, Len(tr) * Len(tr[1][1][1]))
Prob(tech, o, i, cur, tr, ix) ==
  CASE tech = "point_estimate" -> B01(CellAt(o, i, cur, ix))
    [] tech = "factor_map" -> B01(CellAt(o, i, [k \in DOMAIN tr |-> MapOf(tr[k])], ix))
    [] tech = "mc" -> Cardinality({s \in DOMAIN tr[1] : CellAt(o, i, SampleOf(tr, s), ix)})
    [] tech \in {"factor_mean", "factor_mean_old"} ->
         ReducedExpected(o, i, RowsAt([k \in DOMAIN tr |-> MeanOf(tr[k])], ix), Len(tr[1]), Len(tr[1][1][1]))

\* e.den: Den as used by the observer; e.w[ix]: output times e.den, rounded;
\* e.r[ix]: what rounding removed (micro); e.v[ix]: output in 1e-5; e.s: logistic of
\* the mean dispersion in 1e-5
FailedLayerOut(e) ==
  LET den == Den(e.tech, e.tr)
      p(ix) == Prob(e.tech, e.o, e.i, e.cur, e.tr, ix)
      noisy(ix) == p(ix) * e.s + (den - p(ix)) * (100000 - e.s)
      want(ix) == IF e.mapped THEN p(ix) ELSE 2 * p(ix) - den
  IN IF ~HasShape(e.w, Dims(e.cur)) THEN {"shape"}
     ELSE IF den # e.den THEN {"number of samples"}
     ELSE IF ~e.noisy THEN Clause(e.tech, \A ix \in Cells(e.cur) : At(e.w, ix) = want(ix) /\ At(e.r, ix) = 0)
     ELSE Clause(e.tech \o " noisy", \A ix \in Cells(e.cur) :
            IF e.mapped THEN Abs(At(e.v, ix) * den - noisy(ix)) <= 3 * den
            ELSE Abs((At(e.v, ix) + 100000) * den - 2 * noisy(ix)) <= 6 * den)
FailedMeanOf(e) ==
  Clause("mean", \A r \in DOMAIN e.cur : \A l \in DOMAIN e.cur[r] :
      e.mean[r][l] = 2 * Ones(e.t, r, l) - Len(e.t))
FailedOut(e) == IF e.op = "mean" THEN FailedMeanOf(e) ELSE FailedLayerOut(e)
=============================================================================
