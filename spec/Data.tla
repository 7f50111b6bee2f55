-------------------------------- MODULE Data --------------------------------
(* Data sets around a model: held-out splits, noise, random products,          *)
(* densities.  Arrays are flat sequences of cells in -1/0/1 (0 missing), or    *)
(* 0/1 for Boolean arrays.                                                     *)
EXTENDS Lom, Json, IOUtils
Clause(name, ok) == IF ok THEN {} ELSE {name}
Count(x, v) == Cardinality({j \in DOMAIN x : x[j] = v})
SumOver(S, op(_)) == MapThenSumSet(op, S)

\* ------------------------------------------------------------------- splits
Recoded(x) == IF \E j \in DOMAIN x : x[j] = -1 THEN x ELSE [j \in DOMAIN x |-> 2 * x[j] - 1]
\* training data t holds out the set h of cells of x
HoldsOut(x, t, h) == Len(t) = Len(x) /\ \A j \in DOMAIN x : t[j] = IF j \in h THEN 0 ELSE x[j]
\* e.kind: "plain", "balanced" (of the observed cells), "all" (balanced, of all
\* cells, 0/1 recoded), "old" (of all cells); share e.num / e.den
SplitClauses(e) ==
  LET x  == IF e.kind = "all" THEN Recoded(e.x) ELSE e.x
      h  == IF e.kind = "all" THEN {j \in DOMAIN x : e.train[j] = 0 /\ x[j] # 0} ELSE {j \in DOMAIN x : e.mask[j] = 1}
      S(n) == (n * e.num) \div (2 * e.den)
      n1 == Cardinality({j \in h : x[j] = 1})
      n2 == Cardinality({j \in h : x[j] = -1})
      all == (Len(x) * e.num) \div e.den
  IN Clause("held out cells observed", \A j \in h : x[j] # 0)
     \cup Clause("training data", HoldsOut(x, e.train, h))
     \cup (CASE e.kind = "balanced" -> Clause("balanced", n1 = S(Len(x) - Count(x, 0)) /\ n2 = n1)
             [] e.kind = "all" -> Clause("balanced", n1 = S(Len(x)) /\ n2 = n1)
             [] e.kind = "old" -> Clause("number", Cardinality(h) <= all /\ Cardinality(h) >= all - Count(x, 0))
             [] OTHER -> {})
FailedSplit(e) ==
  Clause("original", e.after = e.x)
  \cup Clause("shape", e.tshape = e.shape /\ e.mshape = e.shape)
  \cup (IF e.tshape = e.shape /\ e.mshape = e.shape THEN SplitClauses(e) ELSE {})
\* all outcomes e.out[k] = [h: held out cells (sequence), p: probability in 1e-5]
Choose(n, k) == LET RECURSIVE c(_, _)
                    c(a, b) == IF b = 0 \/ a = b THEN 1 ELSE c(a - 1, b - 1) + c(a - 1, b) IN IF k > n THEN 0 ELSE c(n, k)
FailedSplitDist(e) ==
  LET obs == {j \in DOMAIN e.x : e.x[j] # 0}
      n   == Cardinality(obs)
      S   == (n * e.num) \div (2 * e.den)
      sets == {{e.out[k].h[j] : j \in DOMAIN e.out[k].h} : k \in DOMAIN e.out}
  IN CASE e.kind = "plain" ->
            \* every observed cell on its own, expected number num/den of all cells
            Clause("held out cells observed", \A h \in sets : h \subseteq obs)
            \cup Clause("held out independently", \A k \in DOMAIN e.out :
              LET c == Len(e.out[k].h)
                  w == Pow(Len(e.x) * e.num, c) * Pow(n * e.den - Len(e.x) * e.num, n - c)
              IN Abs(e.out[k].p * Pow(n * e.den, n) - 100000 * w) <= Pow(n * e.den, n))
            \cup Clause("every subset", SumOver(DOMAIN e.out, LAMBDA k : e.out[k].p) >= 100000 - Len(e.out))
       [] e.kind = "balanced" ->
            Clause("every choice possible", Cardinality(sets) = Choose(Count(e.x, 1), S) * Choose(Count(e.x, -1), S))
            \cup Clause("equally likely", \A k \in DOMAIN e.out : Abs(e.out[k].p * Len(e.out) - 100000) <= Len(e.out))

\* -------------------------------------------------------------------- noise
Flipped(v, bool) == IF bool THEN 1 - v ELSE -v
\* probability (sequence <<num, den>>) of flipping a cell with value v
FlipP(e, v) == IF e.bool THEN e.pp ELSE IF v = 1 THEN e.pp ELSE e.pm
FailedNoise(e) ==
  Clause("original", e.after = e.x)
  \cup Clause("shape", e.yshape = e.shape)
  \cup Clause("again", e.y2 = e.y)
  \cup (IF Len(e.y) # Len(e.x) THEN {} ELSE
        Clause("cells", \A j \in DOMAIN e.x : e.y[j] \in {e.x[j], Flipped(e.x[j], e.bool)})
        \cup Clause("missing", e.bool \/ \A j \in DOMAIN e.x : e.x[j] = 0 => e.y[j] = 0)
        \cup Clause("certain", \A j \in DOMAIN e.x :
              LET p == FlipP(e, e.x[j]) IN (p[1] = 0 => e.y[j] = e.x[j])
                                           /\ (p[1] = p[2] => e.y[j] = Flipped(e.x[j], e.bool))))
FailedNoiseDist(e) ==
  LET cells == {j \in DOMAIN e.x : e.bool \/ e.x[j] # 0}
      den == LET RECURSIVE d(_)
                 d(j) == IF j > Len(e.x) THEN 1 ELSE (IF j \in cells THEN FlipP(e, e.x[j])[2] ELSE 1) * d(j + 1) IN d(1)
      w(y) == LET RECURSIVE g(_)
                  g(j) == IF j > Len(e.x) THEN 1
                          ELSE (IF j \notin cells THEN 1
                                ELSE IF y[j] = e.x[j] THEN FlipP(e, e.x[j])[2] - FlipP(e, e.x[j])[1] ELSE FlipP(e, e.x[j])[1]) * g(j + 1)
              IN g(1)
  IN Clause("cells", \A k \in DOMAIN e.out : Len(e.out[k].y) = Len(e.x) /\
        \A j \in DOMAIN e.x : e.out[k].y[j] = e.x[j] \/ (j \in cells /\ e.out[k].y[j] = Flipped(e.x[j], e.bool)))
     \cup Clause("independent flips", \A k \in DOMAIN e.out :
        Len(e.out[k].y) = Len(e.x) => Abs(e.out[k].p * den - 100000 * w(e.out[k].y)) <= den)
     \cup Clause("total", Abs(SumOver(DOMAIN e.out, LAMBDA k : e.out[k].p) - 100000) <= Len(e.out))

\* ---------------------------------------------------------- random products
NonNested(a) ==
  \A j, k \in 1..Len(a[1]) : j # k => \E r \in DOMAIN a : a[r][j] = 1 /\ a[r][k] # 1
FailedOrm(e) ==      \* e.dims = <<N, D, L>>
  IF ~(HasShape(e.u, <<e.dims[2], e.dims[3]>>) /\ HasShape(e.z, <<e.dims[1], e.dims[3]>>) /\ HasShape(e.x, <<e.dims[1], e.dims[2]>>))
  THEN {"shape"}
  ELSE Clause("coding", \A a \in {e.u, e.z} : \A r \in DOMAIN a : \A l \in DOMAIN a[r] : a[r][l] \in {-1, 1})
       \cup Clause("product", IsProduct("OR", "AND", <<e.z, e.u>>, e.x))
       \cup Clause("nested columns", NonNested(e.u) /\ NonNested(e.z))
\* uniform operator weight: n inputs, each true with a of b; out of b^n
UniOp(name, n, a, b) ==
  MapThenSumSet(LAMBDA j : IF Op(name, [i \in 1..n |-> i <= j]) THEN Choose(n, j) * Pow(a, j) * Pow(b - a, n - j) ELSE 0, 0..n)
DensityWeight(o, i, K, L, a, B) == UniOp(o, L, UniOp(i, K, a, B), Pow(B, K))
\* tensor of factors with entries 1 w.p. a/B: e.num is the density out of B^(3L)
\* e.fd: factor density reported (1e-6); f: factors -1/1
FailedTensor(e) ==
  IF ~(HasShape(e.x, e.dims) /\ HasShape(e.y, e.dims) /\ Len(e.f) = Len(e.dims)
       /\ \A k \in DOMAIN e.dims : HasShape(e.f[k], <<e.dims[k], e.L>>)) THEN {"shape"}
  ELSE Clause("product", IsProduct("OR", "AND", e.f, e.x))
       \cup Clause("requested density", e.num = DensityWeight("OR", "AND", 3, e.L, e.a, e.B))
       \cup Clause("factor density", Abs(e.fd * e.B - 1000000 * e.a) <= e.B)
       \cup Clause("noise", (e.noise[1] = 0 => e.y = e.x)
                            /\ (e.noise[1] = e.noise[2] => \A ix \in Cells(e.f) : At(e.y, ix) = -At(e.x, ix)))
\* every entry of a matrix of e.n entries is 1 with probability e.pp, independently
FailedMatDist(e) ==
  LET den == Pow(e.pp[2], e.n)
      w(y) == Pow(e.pp[1], Count(y, 1)) * Pow(e.pp[2] - e.pp[1], e.n - Count(y, 1))
  IN Clause("shape", e.yshape = e.shape)
     \cup Clause("coding", \A k \in DOMAIN e.out : Len(e.out[k].y) = e.n /\ \A j \in DOMAIN e.out[k].y : e.out[k].y[j] \in {-1, 1})
     \cup Clause("independent entries", \A k \in DOMAIN e.out : Abs(e.out[k].p * den - 100000 * w(e.out[k].y)) <= den)
     \cup Clause("total", Abs(SumOver(DOMAIN e.out, LAMBDA k : e.out[k].p) - 100000) <= Len(e.out))
\* probability e.d (1e-5) that a cell of a random tensor is 1, e.dy after noise
FailedTensorDist(e) ==
  LET den == Pow(e.B, 3 * e.L)
      w   == DensityWeight("OR", "AND", 3, e.L, e.a, e.B)
  IN Clause("density", Abs(e.d * den - 100000 * w) <= 2 * den)
     \cup Clause("noisy density", Abs(e.dy * e.noise[2] - (e.d * (e.noise[2] - e.noise[1]) + (100000 - e.d) * e.noise[1])) <= 2 * e.noise[2])

\* ----------------------------------------------------------------- densities
FailedDensity(e) ==
  Clause("density", e.w = DensityWeight(e.o, e.i, e.K, e.L, e.a, e.B)) \cup Clause("inexact", e.r = 0)
\* e.f factor density found (1e-6), e.back density it gives, e.num target out of B^(KL)
FailedInverse(e) ==
  Clause("range", e.f >= 0 /\ e.f <= 1000000)
  \cup Clause("target", e.w = DensityWeight(e.o, e.i, e.K, e.L, e.a, e.B) /\ e.r = 0)
  \cup Clause("reproduces", Abs(e.back - e.want) <= 2)
FailedData(e) ==
  CASE e.op = "recode" -> Clause("recoded", e.y = Recoded(e.x) /\ e.after = e.x)
    [] e.op = "split"  -> FailedSplit(e)
    [] e.op = "splitd" -> FailedSplitDist(e)
    [] e.op = "noise"  -> FailedNoise(e)
    [] e.op = "noised" -> FailedNoiseDist(e)
    [] e.op = "orm"    -> FailedOrm(e)
    [] e.op = "tensor" -> FailedTensor(e)
    [] e.op = "tensord" -> FailedTensorDist(e)
    [] e.op = "matd"   -> FailedMatDist(e)
    [] e.op = "density" -> FailedDensity(e)
    [] e.op = "inverse" -> FailedInverse(e)
=============================================================================
