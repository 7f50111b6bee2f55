-------------------------------- MODULE Eval --------------------------------
(* Held-out evaluation: predictive accuracy from factor means, grids, area     *)
(* under the curve, reconstructions.                                           *)
EXTENDS HistoryRun
\* rows of the requested model: inverted probabilities if the canonical model
\* used instead stands for it with inverted factors
ModelRows(f, ix, B, invf) ==
  [k \in DOMAIN f |-> [l \in DOMAIN f[k][ix[k]] |-> IF invf THEN B - f[k][ix[k]][l] ELSE f[k][ix[k]][l]]]
\* weight of a one of the requested model o-i, out of Pow(Pow(B, K), L)
PredWeight(o, i, f, ix, B, invf) == ExpectedWeight(o, i, ModelRows(f, ix, B, invf), B)
Whole(f, B) == Pow(Pow(B, Len(f)), Len(f[1][1]))
\* held-out cells; predictions that are right for certain, and undecided ones (exactly one half)
HeldOut(f, mask) == {ix \in Cells(f) : At(mask, ix) = 1}
CertainlyRight(w, M, v) == IF v = 1 THEN w > M - w ELSE w < M - w
Undecided(w, M) == w = M - w
FailedAcc(e) ==
  LET held == HeldOut(e.f, e.mask)
      M == Whole(e.f, e.B)
      w == [ix \in held |-> PredWeight(e.o, e.i, e.f, ix, e.B, e.invf)]
      sure == Cardinality({ix \in held : CertainlyRight(w[ix], M, At(e.x, ix))})
      ties == Cardinality({ix \in held : Undecided(w[ix], M)})
  IN IF held = {} THEN {}
     ELSE Clause("whole number of cells", e.exact)
          \cup Clause("held-out cells", e.n = Cardinality(held))
          \cup Clause("accuracy", e.c >= sure /\ e.c <= sure + ties)
          \cup Clause("size", e.L = Len(e.f[1][1]))
          \cup Clause("model", e.named = e.asked)

\* a grid: e.asked, e.done sequences of [m, L]
Times(s, v) == Cardinality({j \in DOMAIN s : s[j] = v})
FailedGrid(e) ==
  Clause("every combination once", Len(e.asked) = Len(e.done)
                                   /\ \A j \in DOMAIN e.asked : Times(e.asked, e.asked[j]) = Times(e.done, e.asked[j]))
  \cup Clause("as many factors as results", e.factors = Len(e.done))

\* area under the curve over the held-out cells: e.v scores (integers), e.auc in 1e-6
FailedAuc(e) ==
  LET cells == {ix \in {<<a, b>> : a \in DOMAIN e.x, b \in DOMAIN e.x[1]} : At(e.train, ix) = 0 /\ At(e.x, ix) # 0}
      P == {ix \in cells : At(e.x, ix) = 1}
      Q == cells \ P
      above(p) == 2 * Cardinality({q \in Q : At(e.v, q) < At(e.v, p)}) + Cardinality({q \in Q : At(e.v, q) = At(e.v, p)})
      den == 2 * Cardinality(P) * Cardinality(Q)
  IN IF P = {} \/ Q = {} THEN {}
     ELSE Clause("area", Abs(e.auc * den - MapThenSumSet(above, P) * 1000000) <= 2 * den)

\* reconstruction from the means f (out of B) of a model o-i: e.w probability in
\* 1e-6, e.plug the reconstruction from thresholded means
Over(f, B) == [k \in DOMAIN f |-> [n \in DOMAIN f[k] |-> [l \in DOMAIN f[k][n] |-> IF 2 * f[k][n][l] > B THEN 1 ELSE -1]]]
\* what is evaluated has been inferred from the given data with the given
\* settings, in one or several runs that leave samples of every free member
FailedRan(e) ==
  IF Len(e.runs) = 0 THEN {"nothing was inferred"}
  ELSE Clause("data of the inference", \A j \in DOMAIN e.runs : LET r == e.runs[j] IN
                Len(r.data) = 1 /\ r.data[1] = [i \in DOMAIN e.x |-> IF r.inv[1] THEN -e.x[i] ELSE e.x[i]])
       \cup Clause("size of the inference", \A j \in DOMAIN e.runs : e.runs[j].L = <<e.L>>)
       \cup Clause("initial dispersion", e.lam < 0 \/ e.runs[1].lam = <<e.lam>>)
       \cup Clause("annealing", \E j \in DOMAIN e.runs : e.runs[j].anneal = e.anneal)
       \cup Clause("samples", LET n == e.runs[Len(e.runs)].samples IN
                n # <<>> /\ n[1] > 0 /\ \A k \in DOMAIN n : n[k] = n[1])
FailedRecon(e) ==
  LET one == Pow(e.B, Len(e.f))
      L == Len(e.f[1][1])
      q(ix, l) == InnerWeight(e.i, [k \in DOMAIN e.f |-> e.f[k][ix[k]][l]], e.B)    \* out of one
      \* probability that no dimension emits, in 1e-4
      RECURSIVE none(_, _)
      none(ix, l) == IF l > L THEN 10000 ELSE (none(ix, l + 1) * ((one - q(ix, l)) \div (one \div 1000))) \div 1000
  IN IF ~HasShape(e.w, Dims(e.f)) \/ ~HasShape(e.plug, Dims(e.f)) THEN {"shape"}
     ELSE Clause("mean reconstruction", \A ix \in Cells(e.f) : Abs(At(e.w, ix) - (1000000 - 100 * none(ix, 1))) <= 3000 * L)
          \cup Clause("plug-in reconstruction",
                 \A ix \in Cells(e.f) : At(e.plug, ix) = IF CellAt(e.o, e.i, Over(e.f, e.B), ix) THEN 1 ELSE 0)
FailedEval(e) ==
  CASE e.op = "acc" -> FailedAcc(e)
    [] e.op = "grid" -> FailedGrid(e)
    [] e.op = "auc" -> FailedAuc(e)
    [] e.op = "ran" -> FailedRan(e)
    [] e.op = "recon" -> FailedRecon(e)
    [] OTHER -> FailedHistory(e)
=============================================================================
