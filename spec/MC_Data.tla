------------------------------- MODULE MC_Data ------------------------------
(* A data set on its way through noise and a held-out split, cell by cell, and *)
(* the closed form of expected densities.                                      *)
EXTENDS Data
CONSTANTS M, B, KMax, LMax
VARIABLES x, y, t, h, den
vars == <<x, y, t, h, den>>
Init == \/ /\ den = <<>>
           /\ x \in [1..M -> {-1, 0, 1}]
           /\ y = x /\ t = x /\ h = {}
        \/ /\ den \in {<<o, i, k, l, a>> : o \in Ops, i \in Ops, k \in 2..KMax, l \in 1..LMax, a \in 0..B}
           /\ x = <<>> /\ y = <<>> /\ t = <<>> /\ h = {}
Data == den = <<>>
Noise == /\ Data /\ h = {}
         /\ \E j \in DOMAIN y : y[j] # 0 /\ y' = [y EXCEPT ![j] = -@]
         /\ t' = y' /\ UNCHANGED <<x, h, den>>
Hold(S) == /\ h' = h \cup S /\ t' = [j \in DOMAIN t |-> IF j \in S THEN 0 ELSE t[j]] /\ UNCHANGED <<x, y, den>>
HoldOne == Data /\ \E j \in DOMAIN y : y[j] # 0 /\ j \notin h /\ Hold({j})
\* one 1 and one -1 at a time: the balanced variant
HoldPair == Data /\ \E j, k \in DOMAIN y : y[j] = 1 /\ y[k] = -1 /\ {j, k} \cap h = {} /\ Hold({j, k})
Next == Noise \/ HoldOne \/ HoldPair
Spec == Init /\ [][Next]_vars
NextPairs == Noise \/ HoldPair
SpecPairs == Init /\ [][NextPairs]_vars
MissingStays == \A j \in DOMAIN x : x[j] = 0 => y[j] = 0 /\ t[j] = 0 /\ j \notin h
Partition == HoldsOut(y, t, h) /\ \A j \in DOMAIN y : y[j] = (IF j \in h THEN y[j] ELSE t[j])
HeldIsWhatWentMissing == h = {j \in DOMAIN y : t[j] = 0 /\ y[j] # 0}
Mask == [j \in DOMAIN x |-> IF j \in h THEN 1 ELSE 0]
PlainAccepted == Data => FailedSplit([kind |-> "plain", x |-> y, after |-> y, train |-> t, mask |-> Mask, num |-> 1, den |-> 2,
                                      shape |-> <<M>>, tshape |-> <<M>>, mshape |-> <<M>>]) = {}
\* evaluation on held-out cells is the same for inverted data and prediction
Accuracy(p, z) == Cardinality({j \in h : (p[j] = 1) = (z[j] = 1)})
InversionNeutral == Accuracy(t, y) = Accuracy([j \in DOMAIN t |-> IF t[j] = 1 THEN -1 ELSE 1], [j \in DOMAIN y |-> -y[j]])
Density == den # <<>> =>
  LET o == den[1] i == den[2] k == den[3] l == den[4] a == den[5]
      rows == [c \in 1..k |-> [d \in 1..l |-> a]]
      w == DensityWeight(o, i, k, l, a, B)
  IN /\ w = ExpectedWeight(o, i, rows, B)
     /\ DensityWeight(NegOp(o), i, k, l, a, B) = Pow(B, k * l) - w
=============================================================================
