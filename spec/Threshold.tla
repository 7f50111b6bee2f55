------------------------------ MODULE Threshold -----------------------------
(* The qL-AND model: cell (n, d) is predicted 1 iff at least q[d] latent       *)
(* dimensions are active in both z[n] and u[d].                                *)
EXTENDS Lom, Json, IOUtils
Clause(name, ok) == IF ok THEN {} ELSE {name}
QS == 1..5                                   \* values a threshold can take
Both(zr, ur) == Cardinality({l \in DOMAIN zr : zr[l] = 1 /\ ur[l] = 1})
QCell(z, u, q, ix) == Both(z[ix[1]], u[ix[2]]) >= q[ix[2]]
QCells(z, u) == {<<n, d>> : n \in DOMAIN z, d \in DOMAIN u}
QObserved(x, z, u) == Cardinality({ix \in QCells(z, u) : x[ix[1]][ix[2]] # 0})
QExplained(x, z, u, q) == Cardinality({ix \in QCells(z, u) : x[ix[1]][ix[2]] = PM(QCell(z, u, q, ix))})
QExplainedIn(x, z, u, d, v) == Cardinality({n \in DOMAIN z : x[n][d] = PM(Both(z[n], u[d]) >= v)})

\* f = <<z, u>>; change of explained cells by entry (n, l) of f[m]
QScore(f, x, q, m, n, l) ==
  QExplained(x, SetEntry(f, m, n, l, 1)[1], SetEntry(f, m, n, l, 1)[2], q)
  - QExplained(x, SetEntry(f, m, n, l, -1)[1], SetEntry(f, m, n, l, -1)[2], q)
\* the same from the cells of the entry's own row or column that are one short of the threshold
QLocal(f, x, q, m, n, l) ==
  LET zo == f[1] uo == f[2]
      short(a, d) == Cardinality({k \in (DOMAIN zo[a]) \ {l} : zo[a][k] = 1 /\ uo[d][k] = 1}) = q[d] - 1
  IN IF m = 1 THEN MapThenSumSet(LAMBDA d : IF uo[d][l] = 1 /\ short(n, d) THEN x[n][d] ELSE 0, DOMAIN uo)
     ELSE MapThenSumSet(LAMBDA a : IF zo[a][l] = 1 /\ short(a, n) THEN x[a][n] ELSE 0, DOMAIN zo)
RECURSIVE Factorial(_)
Factorial(v) == IF v = 0 THEN 1 ELSE v * Factorial(v - 1)

\* ------------------------------------------------------------ observations
FailedQSite(e) ==
  Clause("others changed", e.same)
  \cup Clause("conditional", Abs(e.lo - (e.lam * QScore(e.f, e.x, e.q, e.m, e.n, e.l) + e.prior)) <= 20)
\* distribution of threshold d: e.p[v] in 1e-6, likelihood of a cell e.b : 1, Poisson
\* mean e.g[1] / e.g[2]; judged through ratios of neighbouring values
QRatio(e, v) ==       \* p[v + 1] : p[v]
  LET s == QExplainedIn(e.x, e.f[1], e.f[2], e.d, v + 1) - QExplainedIn(e.x, e.f[1], e.f[2], e.d, v)
  IN IF s >= 0 THEN <<e.g[1] * Pow(e.b, s), e.g[2] * (v + 1)>>
     ELSE <<e.g[1], e.g[2] * (v + 1) * Pow(e.b, -s)>>
FailedQDraw(e) ==
  Clause("others changed", e.same)
  \cup Clause("values", Len(e.p) = Cardinality(QS)
              /\ Abs(MapThenSumSet(LAMBDA v : e.p[v], DOMAIN e.p) - 1000000) <= 5)
  \cup (IF Len(e.p) # Cardinality(QS) THEN {} ELSE
        Clause("threshold distribution", \A v \in 1..4 :
          Abs(e.p[v + 1] * QRatio(e, v)[2] - e.p[v] * QRatio(e, v)[1]) <= 2 * (QRatio(e, v)[1] + QRatio(e, v)[2])))
FailedQLbda(e) ==
  LET nd  == QObserved(e.x, e.f[1], e.f[2])
      p   == QExplained(e.x, e.f[1], e.f[2], e.q)
      num == p * e.den + e.a
      den == nd * e.den + e.a + e.b
  IN Clause("side effect", e.same)
     \cup (IF 2 * num <= den THEN Clause("floor", e.s = 500000)
           ELSE Clause("dispersion", Abs(e.s * den - num * 1000000) <= den))
FailedQOut(e) ==
  IF ~HasShape(e.w, <<Len(e.f[1]), Len(e.f[2])>>) THEN {"shape"}
  ELSE Clause("output", \A ix \in QCells(e.f[1], e.f[2]) :
         At(e.w, ix) = IF QCell(e.f[1], e.f[2], e.q, ix) THEN 1 ELSE IF e.mapped THEN 0 ELSE -1)

\* one whole iteration: states are 1..S, e.S[s] = [f, q]; e.K[s][t] in 1e-4
FailedQStat(e) ==
  LET S == DOMAIN e.S
      A == [s \in S |-> QExplained(e.x, e.S[s].f[1], e.S[s].f[2], e.S[s].q)]
      lo == Min({A[s] : s \in S})
      pois(v) == Pow(e.g[1], v) * Pow(e.g[2], 5 - v) * (120 \div Factorial(v))
      RECURSIVE qw(_, _)
      qw(q, d) == IF d > Len(q) THEN 1 ELSE (IF d \in {e.fq[j] : j \in DOMAIN e.fq} THEN pois(q[d]) ELSE 1) * qw(q, d + 1)
      ones(f, m) == Cardinality({j \in DOMAIN e.free : e.free[j][1] = m /\ f[m][e.free[j][2]][e.free[j][3]] = 1})
      nfree(m) == Cardinality({j \in DOMAIN e.free : e.free[j][1] = m})
      RECURSIVE pr(_, _)
      pr(f, m) == IF m > 2 THEN 1 ELSE Pow(e.odds[m][1], ones(f, m)) * Pow(e.odds[m][2], nfree(m) - ones(f, m)) * pr(f, m + 1)
      W == [s \in S |-> Pow(e.b, A[s] - lo) * qw(e.S[s].q, 1) * pr(e.S[s].f, 1)]
      RECURSIVE Gc(_, _)
      Gc(a, b) == IF b = 0 THEN a ELSE Gc(b, a - b * (a \div b))
      RECURSIVE all(_, _)
      all(s, g) == IF s > Len(e.S) THEN g ELSE all(s + 1, Gc(W[s], g))
      g0 == all(2, W[1])
      V == [s \in S |-> W[s] \div g0]
      tot == MapThenSumSet(LAMBDA s : V[s], S)
  IN IF tot > 200000 THEN {"weights too large"}
     ELSE Clause("left the state space", \A s \in S : Abs(MapThenSumSet(LAMBDA t : e.K[s][t], S) - 10000) <= Len(e.S))
          \cup Clause("stationary", \A t \in S : Abs(MapThenSumSet(LAMBDA s : V[s] * e.K[s][t], S) - V[t] * 10000) <= tot)
FailedThreshold(e) ==
  CASE e.op = "qsite" -> FailedQSite(e)
    [] e.op = "qdraw" -> FailedQDraw(e)
    [] e.op = "qlbda" -> FailedQLbda(e)
    [] e.op = "qout"  -> FailedQOut(e)
    [] e.op = "qstat" -> FailedQStat(e)
=============================================================================
