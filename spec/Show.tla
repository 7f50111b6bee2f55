-------------------------------- MODULE Show --------------------------------
(* What is displayed and tabulated: matrices as probabilities of a one, the   *)
(* dispersions in progress reports, tables reduced to what they share, codings *)
(* and scalar functions.  Probabilities in 1e-6.                               *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, Functions
Clause(name, ok) == IF ok THEN {} ELSE {name}
Abs(n) == IF n < 0 THEN -n ELSE n
One == 1000000
SumOver(q) == FoldLeft(LAMBDA a, b : a + b, 0, q)
Is(a, b, f(_, _)) ==      \* same shape, and f of corresponding entries
  /\ Len(a) = Len(b)
  /\ \A r \in DOMAIN a : Len(a[r]) = Len(b[r]) /\ \A c \in DOMAIN a[r] : f(a[r][c], b[r][c])

\* ---------------------------------------------------------------- displays
\* a matrix with the samples o.tr (the state alone if there are none)
Total(o, r, c) == SumOver([s \in DOMAIN o.tr |-> o.tr[s][r][c]])
ShownMean(o) == \A r \in DOMAIN o.val : \A c \in DOMAIN o.val[r] :
                  LET n == Len(o.tr) IN Abs(2 * n * o.got[r][c] - One * (n + Total(o, r, c))) <= 2 * n
ShownMode(o) == \A r \in DOMAIN o.val : \A c \in DOMAIN o.val[r] :
                  o.got[r][c] = IF Total(o, r, c) > 0 THEN One ELSE 0
ShownState(o) == Is(o.val, o.got, LAMBDA v, g : 2 * g = One * (1 + v))
FailedShown(o) ==
  IF ~Is(o.val, o.got, LAMBDA v, g : TRUE) THEN {"shape of the display"}
  ELSE Clause("displayed", CASE o.tech = "mean" -> ShownMean(o) [] o.tech = "map" -> ShownMode(o) [] o.tech = "state" -> ShownState(o))
       \cup Clause("scale of the display", o.lim = <<0, One>>)
\* an array given in the -1/1 coding (some entry is -1) or as probabilities
FailedPlot(o) ==
  LET pm == \E r \in DOMAIN o.x : \E c \in DOMAIN o.x[r] : o.x[r][c] < 0 IN
  Clause("displayed", Is(o.x, o.got, LAMBDA v, g : Abs(IF pm THEN 2 * g - (One + v) ELSE 2 * (g - v)) <= 2))
  \cup Clause("scale of the display", o.lim = o.want)
  \cup Clause("argument changed", o.y = o.x)
\* printed dispersions o.num (in units of 1/o.unit), true ones o.p[1] / o.p[2]
FailedPrinted(o) ==
  Clause("number of values", Len(o.num) = Len(o.p))
  \cup Clause("printed value", Len(o.num) = Len(o.p) =>
          \A k \in DOMAIN o.num : 2 * Abs(o.num[k] * o.p[k][2] - o.unit * o.p[k][1]) <= o.p[k][2] + 1)

\* ------------------------------------------------------------------- tables
Labels(q) == {q[i] : i \in DOMAIN q}
At(t, r, c) == t.v[CHOOSE i \in DOMAIN t.rows : t.rows[i] = r][CHOOSE j \in DOMAIN t.cols : t.cols[j] = c]
Reduced(t, u, rows, cols) ==
  /\ Labels(u.rows) = rows /\ Len(u.rows) = Cardinality(rows)
  /\ Labels(u.cols) = cols /\ Len(u.cols) = Cardinality(cols)
  /\ \A r \in rows : \A c \in cols : At(u, r, c) = At(t, r, c)
FailedTables(o) ==
  LET rows == Labels(o.a.rows) \cap Labels(o.b.rows)
      cols == Labels(o.a.cols) \cap Labels(o.b.cols)
  IN Clause("first table", Reduced(o.a, o.ra, rows, cols))
     \cup Clause("second table", Reduced(o.b, o.rb, rows, cols))
     \cup Clause("order of the tables", o.ra.rows = o.rb.rows /\ o.ra.cols = o.rb.cols
                                         /\ \A i \in 1..(Len(o.ra.rows) - 1) : o.ra.rows[i] < o.ra.rows[i + 1])
     \cup Clause("tables changed", o.a2 = o.a /\ o.b2 = o.b)

\* ------------------------------------------------------------ codings, lists
FailedRecode(o) ==
  LET pm == \E r \in DOMAIN o.x : \E c \in DOMAIN o.x[r] : o.x[r][c] = -1
  IN Clause("coding", Is(o.x, o.got, LAMBDA v, g : g = IF pm THEN v ELSE 2 * v - 1))
     \cup Clause("small integers", o.int8)
     \cup Clause("argument changed", o.y = o.x)
First(q) == SelectSeq([i \in DOMAIN q |-> i], LAMBDA i : \A j \in 1..(i - 1) : q[j] # q[i])
FailedUnique(o) == Clause("distinct entries in order", o.got = [i \in DOMAIN First(o.q) |-> o.q[First(o.q)[i]]])
\* middle of each run of an ordered list, counted from zero and rounded down
FailedCenters(o) ==
  Clause("centers", o.got = [i \in DOMAIN First(o.q) |->
     LET at == {j \in DOMAIN o.q : o.q[j] = o.q[First(o.q)[i]]} IN (Min(at) + Max(at) - 2) \div 2])
\* ---------------------------------------------------------------- functions
\* expit(log(a / b)) = a / (a + b), exp(logit(a / (a + b))) = a / b,
\* exp(logsumexp(log q)) = sum of q; small tables of the code, scaled
Near(got, n, d) == Abs(got * d - One * n) <= 2 * d + n
FailedScalar(o) ==
  CASE o.f = "expit" -> Clause("logistic function", Near(o.got, o.a, o.a + o.b))
    [] o.f = "logit" -> Clause("logit", Near(o.got, o.a, o.b))
    [] o.f = "logsumexp" -> Clause("sum of exponentials", o.got = SumOver(o.q))
\* odds of one success more in o.n draws, after k = 0, 1, ..: ratios of the
\* probabilities of k + 1 and k successes (none is possible after o.n), for a
\* success probability a / (a + b) per draw (a success counting as o.tau draws), or
\* for one with a Beta(a, b) prior
BinOdds(n, tau, a, b, k) == <<IF n > k * tau THEN a * (n - k * tau) ELSE 0, b * (k * tau + 1)>>
BetaOdds(n, a, b, k) == <<IF n > k THEN (n - k) * (k + a) ELSE 0, IF n > k THEN (k + 1) * (n - k + b - 1) ELSE 1>>
FailedOdds(o) ==
  LET q(k) == IF o.f = "binomial" THEN (IF k < o.n THEN BinOdds(o.n, o.tau, o.a, o.b, k) ELSE <<0, 1>>)
              ELSE BetaOdds(o.n, o.a, o.b, k)
  IN Clause("number of odds", Len(o.got) = o.N)
     \cup Clause("odds of one success more", \A i \in DOMAIN o.got : Near(o.got[i], q(i - 1)[1], q(i - 1)[2]))
\* one emitter per cell: the strongest active dimension, else the baseline;
\* factors in 0/1, strengths in 1/1000
FailedPass(o) ==
  LET on(n, d) == {l \in DOMAIN o.z[n] : o.z[n][l] = 1 /\ o.u[d][l] = 1}
  IN Clause("emitter", \A n \in DOMAIN o.z : \A d \in DOMAIN o.u :
        Abs(o.got[n][d] - 1000 * (IF on(n, d) = {} THEN o.al[Len(o.al)] ELSE Max({o.al[l] : l \in on(n, d)}))) <= 1)

\* MAX-AND layers: the relevance of a dimension is the expected share of the
\* ones that it explains, i.e. that no stronger active dimension claims;
\* o.z, o.u, o.al: samples (dispersions in 1e-6), o.x: data
Ones(o) == {<<n, d>> \in (DOMAIN o.x) \X (DOMAIN o.x[1]) : o.x[n][d] = 1}
Explains(o, s, l) ==
  LET on(k, n, d) == o.z[s][n][k] = 1 /\ o.u[s][d][k] = 1
  IN {q \in Ones(o) : on(l, q[1], q[2]) /\ \A k \in DOMAIN o.z[s][1] : o.al[s][k] > o.al[s][l] => ~on(k, q[1], q[2])}
Relevance(o, l) == SumOver([s \in DOMAIN o.z |-> o.al[s][l] * Cardinality(Explains(o, s, l))])
\* displayed codes: the means of a factor's columns (o.f: its samples), most
\* relevant (strongest) dimension first, labelled with its relevance and its
\* current dispersion (o.lam), in tenths of percents
FailedCodes(o) ==
  LET L == Len(o.z[1][1])
      S == Len(o.z)
      W == S * Cardinality(Ones(o))
      key == [l \in 1..L |-> IF o.order = "lbda" THEN o.lam[l] ELSE o.rel[l]]
      down(p) == \A i \in 1..(L - 1) : key[p[i]] >= key[p[i + 1]] - 1
      row(r, l) == Len(r) = Len(o.f[1]) /\ \A n \in DOMAIN r : Abs(r[n] * S - One * SumOver([s \in 1..S |-> o.f[s][n][l]])) <= S
      label(v, l) == Abs(v[1] * 1000 - o.rel[l]) <= 501 /\ Abs(v[2] * 1000 - o.lam[l]) <= 501
  IN Clause("relevance", \A l \in 1..L : Abs(o.rel[l] * W - Relevance(o, l)) <= 2 * W)
     \cup Clause("one row per dimension", Len(o.got) = L /\ Len(o.labels) = L)
     \cup Clause("codes in order", Len(o.got) = L /\ Len(o.labels) = L =>
            \E p \in {q \in [1..L -> 1..L] : IsInjective(q)} :
               down(p) /\ \A i \in 1..L : row(o.got[i], p[i]) /\ label(o.labels[i], p[i]))
     \cup Clause("names of the attributes", o.names = o.want)

FailedShow(o) ==
  CASE o.op = "shown" -> FailedShown(o)
    [] o.op = "plot" -> FailedPlot(o)
    [] o.op = "printed" -> FailedPrinted(o)
    [] o.op = "tables" -> FailedTables(o)
    [] o.op = "recode" -> FailedRecode(o)
    [] o.op = "unique" -> FailedUnique(o)
    [] o.op = "centers" -> FailedCenters(o)
    [] o.op = "scalar" -> FailedScalar(o)
    [] o.op = "codes" -> FailedCodes(o)
    [] o.op = "odds" -> FailedOdds(o)
    [] o.op = "pass" -> FailedPass(o)
=============================================================================
