-------------------------------- MODULE Lom --------------------------------
(* Static semantics of logical factorisation machines.                      *)
(*                                                                          *)
(* A factor is a sequence of rows, a row a sequence of L entries in {-1,1}.  *)
(* A model is a pair (outer operator, inner operator).  Data is an array     *)
(* (nested sequences) over {-1,0,1}; 0 is "missing".                         *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, TLC

Abs(a) == IF a < 0 THEN -a ELSE a
MaxOf(a, b) == IF a >= b THEN a ELSE b
MinOf(a, b) == IF a <= b THEN a ELSE b

Ops == {"AND", "NAND", "OR", "NOR", "XOR", "NXOR"}

\* A logical operator applied to a sequence of truth values.  XOR of several
\* values means "exactly one".
Op(name, s) ==
  LET n == Cardinality({i \in DOMAIN s : s[i]}) IN
    CASE name = "AND"  -> n = Len(s)
      [] name = "NAND" -> n # Len(s)
      [] name = "OR"   -> n > 0
      [] name = "NOR"  -> n = 0
      [] name = "XOR"  -> n = 1
      [] name = "NXOR" -> n # 1

PM(b) == IF b THEN 1 ELSE -1

\* rows: one row per factor, all of the same length L
Cell(o, i, rows) ==
  LET K == Len(rows)
      L == Len(rows[1])
  IN Op(o, [l \in 1..L |-> Op(i, [k \in 1..K |-> rows[k][l] = 1])])

\* ------------------------------------------------------------------ arrays
\* Cells of the product of factors f[1..K] (number of rows = extent of axis)
RECURSIVE Grid(_)
Grid(dims) == IF dims = <<>> THEN {<<>>}
              ELSE {<<a>> \o ix : a \in 1..Head(dims), ix \in Grid(Tail(dims))}
Cells(f) ==
  IF Len(f) = 2 THEN {<<a, b>> : a \in 1..Len(f[1]), b \in 1..Len(f[2])}
  ELSE IF Len(f) = 3 THEN
    {<<a, b, c>> : a \in 1..Len(f[1]), b \in 1..Len(f[2]), c \in 1..Len(f[3])}
  ELSE Grid([k \in 1..Len(f) |-> Len(f[k])])

RECURSIVE At(_, _)
At(x, ix) == IF ix = <<>> THEN x ELSE At(x[Head(ix)], Tail(ix))

\* x has exactly the shape given by the sequence dims
RECURSIVE HasShape(_, _)
HasShape(x, dims) ==
  IF dims = <<>> THEN TRUE
  ELSE Len(x) = Head(dims) /\ \A j \in 1..Head(dims) : HasShape(x[j], Tail(dims))

Dims(f) == [k \in 1..Len(f) |-> Len(f[k])]
RowsAt(f, ix) == [k \in 1..Len(f) |-> f[k][ix[k]]]
CellAt(o, i, f, ix) == Cell(o, i, RowsAt(f, ix))

\* x is the product of the factors f (in -1/1 coding)
IsProduct(o, i, f, x) ==
  /\ HasShape(x, Dims(f))
  /\ \A ix \in Cells(f) : At(x, ix) = PM(CellAt(o, i, f, ix))

\* ------------------------------------------------------------- likelihood
Observed(f, x) == {ix \in Cells(f) : At(x, ix) # 0}
Explained(o, i, f, x) == {ix \in Cells(f) : At(x, ix) = PM(CellAt(o, i, f, ix))}

SetEntry(f, k, n, l, v) == [f EXCEPT ![k][n][l] = v]

\* Cells on which entry (n, l) of factor k can have an influence
Slice(f, k, n) == {ix \in Cells([f EXCEPT ![k] = <<f[k][n]>>]) : TRUE}
SliceIx(ix, k, n) == [ix EXCEPT ![k] = n]

RECURSIVE Times2(_, _, _)
Times2(w, ix, j) == IF j > Len(ix) THEN 1 ELSE w[j][ix[j]] * Times2(w, ix, j + 1)
\* number of cells that cell ix stands for if row a of axis j stands for w[j][a] equal rows
Multiplicity(w, ix) == Times2(w, ix, 1)

\* The same for data in which row a of factor k stands for w[k][a] equal rows
\* (and equal data)
WeightedScore(o, i, f, x, w, k, n, l) ==
  LET fp == SetEntry(f, k, n, l, 1)
      fm == SetEntry(f, k, n, l, -1)
      RECURSIVE mult(_, _)
      mult(ix, j) == IF j > Len(f) THEN 1
                     ELSE (IF j = k THEN 1 ELSE w[j][ix[j]]) * mult(ix, j + 1)
      gain(sx) == LET ix == SliceIx(sx, k, n)
                      v  == At(x, ix)
                  IN IF v = 0 THEN 0
                     ELSE ((IF v = PM(CellAt(o, i, fp, ix)) THEN 1 ELSE 0)
                         - (IF v = PM(CellAt(o, i, fm, ix)) THEN 1 ELSE 0)) * mult(ix, 1)
  IN MapThenSumSet(gain, Slice(f, k, n))

\* (cells explained with entry = 1) - (cells explained with entry = -1)
Score(o, i, f, x, k, n, l) ==
  LET fp == SetEntry(f, k, n, l, 1)
      fm == SetEntry(f, k, n, l, -1)
      gain(sx) == LET ix == SliceIx(sx, k, n)
                      v  == At(x, ix)
                  IN IF v = 0 THEN 0
                     ELSE (IF v = PM(CellAt(o, i, fp, ix)) THEN 1 ELSE 0)
                        - (IF v = PM(CellAt(o, i, fm, ix)) THEN 1 ELSE 0)
  IN MapThenSumSet(gain, Slice(f, k, n))

\* ----------------------------------------------------------- canonical form
Inverted(f) == [k \in DOMAIN f |-> [n \in DOMAIN f[k] |-> [l \in DOMAIN f[k][n] |-> -f[k][n][l]]]]

Canonical == { <<"OR","AND">>, <<"OR","NAND">>, <<"OR","XOR">>, <<"NAND","XOR">>,
               <<"XOR","AND">>, <<"XOR","XOR">>, <<"XOR","NXOR">>, <<"XOR","NAND">> }

NegOp(o) == CASE o = "AND" -> "NAND" [] o = "NAND" -> "AND" [] o = "OR" -> "NOR"
              [] o = "NOR" -> "OR"  [] o = "XOR" -> "NXOR" [] o = "NXOR" -> "XOR"

\* ------------------------------------------------------------ probabilities
\* Fixed point exact expectation: entries are integers a in 0..B meaning a/B.
\* Weight of a binary row w given probabilities p
RECURSIVE Pow(_, _)
Pow(b, n) == IF n <= 0 THEN 1 ELSE b * Pow(b, n - 1)

\* number (out of B^K) for one latent dimension: inner operator true
InnerWeight(i, p, B) ==         \* p: sequence of K integers in 0..B
  LET K == Len(p)
      w(s) == LET RECURSIVE prod(_)
                  prod(k) == IF k > K THEN 1
                             ELSE (IF k \in s THEN p[k] ELSE B - p[k]) * prod(k + 1)
              IN prod(1)
      sat == {s \in SUBSET (1..K) : Op(i, [k \in 1..K |-> k \in s])}
  IN MapThenSumSet(w, sat)

\* weight (out of (B^K)^L) of the outer operator being true, given the weights
\* q[l] (out of M) with which dimension l is true
OuterWeight(o, q, M) ==
  LET L == Len(q)
      w(s) == LET RECURSIVE prod(_)
                  prod(l) == IF l > L THEN 1
                             ELSE (IF l \in s THEN q[l] ELSE M - q[l]) * prod(l + 1)
              IN prod(1)
      sat == {s \in SUBSET (1..L) : Op(o, [l \in 1..L |-> l \in s])}
  IN MapThenSumSet(w, sat)

\* rows[k][l] in 0..B ; result out of Pow(Pow(B,K),L)
ExpectedWeight(o, i, rows, B) ==
  LET K == Len(rows)
      L == Len(rows[1])
      M == Pow(B, K)
      q == [l \in 1..L |-> InnerWeight(i, [k \in 1..K |-> rows[k][l]], B)]
  IN OuterWeight(o, q, M)

\* The same when most dimensions are decided (true with probability 0 or 1):
\* weight out of Pow(Pow(B, K), number of open dimensions)
OpenDims(q, M) == {l \in DOMAIN q : 0 < q[l] /\ q[l] < M}
TrueOf(o, n, len) ==            \* outer operator if n of len values are true
  CASE o = "AND" -> n = len [] o = "NAND" -> n # len [] o = "OR" -> n > 0
    [] o = "NOR" -> n = 0   [] o = "XOR" -> n = 1    [] o = "NXOR" -> n # 1
InnerWeights(i, rows, B) == [l \in DOMAIN rows[1] |-> InnerWeight(i, [k \in DOMAIN rows |-> rows[k][l]], B)]
RECURSIVE Chosen(_, _, _, _)
Chosen(q, M, open, s) ==
  IF open = {} THEN 1
  ELSE LET l == CHOOSE l \in open : TRUE
       IN (IF l \in s THEN q[l] ELSE M - q[l]) * Chosen(q, M, open \ {l}, s)
ReducedWeight(o, q, M) ==
  LET open == OpenDims(q, M)
      sure == Cardinality({l \in DOMAIN q : q[l] = M})
  IN MapThenSumSet(LAMBDA s : IF TrueOf(o, Cardinality(s) + sure, Len(q)) THEN Chosen(q, M, open, s) ELSE 0, SUBSET open)
\* the same with room for h open dimensions
ReducedExpected(o, i, rows, B, h) ==
  LET M == Pow(B, Len(rows))
      q == InnerWeights(i, rows, B)
  IN ReducedWeight(o, q, M) * Pow(M, h - Cardinality(OpenDims(q, M)))
=============================================================================
