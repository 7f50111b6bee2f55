------------------------------- MODULE LomApi --------------------------------
(* A machine as its user builds and uses it: matrices and layers are added,  *)
(* members fixed and freed, inference run, outputs asked for, members set to *)
(* their posterior mode - in any order.  The state is what the user can see: *)
(* which matrices and layers there are, how they hang together, what is      *)
(* fixed, how many samples each member holds.                                *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

\* mats : matrices by number of their creation
\*   dims, lay (layer it is a factor of, 0: none), ax (axis of the child),
\*   par (layers it is the child of), reg (known to the machine), fix,
\*   smp (samples held, 0: none), own (the entries are the user's), q
\* lays : layers
\*   child, fac (factors by axis), q (0: none), kind, size, lfix, lsmp,
\*   asked (an output has been computed), auto (redundant dimensions are removed,
\*   "clean", or reset during inference), wide (IBP: dimensions in the samples held)
\* singles : matrices added by themselves, in order
Empty == [mats |-> <<>>, lays |-> <<>>, singles |-> <<>>]

Kind(model) == CASE model = "MAX-AND" -> "max" [] model = "qL-AND" -> "ql" [] model = "OR-AND-IBP" -> "ibp"
                 [] OTHER -> "lom"
Flat2 == {"MAX-AND", "qL-AND", "OR-AND-IBP"}      \* only for data with two dimensions

\* ----------------------------------------------------------------- what is seen
Factors(s) == FlattenSeq([j \in DOMAIN s.lays |-> s.lays[j].fac])
Counts(s) == SelectSeq([j \in DOMAIN s.lays |-> s.lays[j].q], LAMBDA q : q # 0)
Members(s) == Factors(s) \o s.singles \o Counts(s)
\* the other factors of a layer; for the thresholds of a layer, its factors
Siblings(s, m) == IF s.mats[m].lay = 0 THEN <<>>
                  ELSE SelectSeq(s.lays[s.mats[m].lay].fac, LAMBDA f : f # m)
Held(s, j) ==       \* numbers of samples the members of a layer hold
  {s.mats[s.lays[j].fac[k]].smp : k \in DOMAIN s.lays[j].fac} \cup {s.lays[j].lsmp}
Samples(s, j) == LET n == CHOOSE a \in Held(s, j) : \A b \in Held(s, j) : b <= a
                 IN IF n = 0 THEN 1 ELSE n
Set(q) == {q[i] : i \in DOMAIN q}

\* ------------------------------------------------------------ supported machines
\* a layer on top of another matrix than fixed data has two factors and one of
\* the models with conditionals for children; factors of such a layer can be
\* the child of at most two of those, factors of a layer of three of one
Plain2(s, j) == s.lays[j].kind = "lom" /\ Len(s.lays[j].fac) = 2
Room(s, m) ==
  LET x == s.mats[m] IN
  IF x.lay = 0 THEN (IF x.fix THEN 9 ELSE 2)
  ELSE IF x.q \/ s.lays[x.lay].kind # "lom" THEN 0
  ELSE IF Len(s.lays[x.lay].fac) = 3 THEN 1 ELSE 2
CanCarry(s, m, model) ==
  LET x == s.mats[m] IN
  /\ Len(x.par) < Room(s, m)
  /\ x.lay = 0 /\ x.fix => (model \in Flat2 => Len(x.dims) = 2)
  /\ ~(x.lay = 0 /\ x.fix) => Kind(model) = "lom" /\ Len(x.dims) = 2
CanFree(s, m) ==
  LET x == s.mats[m] IN
  x.lay = 0 => /\ Len(x.par) \in 1..2 /\ \A k \in DOMAIN x.par : Plain2(s, x.par[k])
\* the features of an IBP layer come and go with their allocation
Allocated(s, m) == s.mats[m].lay # 0 /\ s.lays[s.mats[m].lay].kind = "ibp" /\ s.mats[m].ax = 1
CanInfer(s) ==
  /\ s.lays # <<>>
  /\ \A k \in DOMAIN s.singles : LET x == s.mats[s.singles[k]] IN ~x.fix => x.par # <<>>

Enabled(s, a) ==
  CASE a.a = "matrix" -> TRUE
    [] a.a = "layer" -> IF a.child = 0 THEN a.model \in Flat2 => Len(a.dims) = 2
                        ELSE a.child \in DOMAIN s.mats /\ CanCarry(s, a.child, a.model)
    [] a.a = "fix" -> a.m \in Set(Members(s)) /\ (IF a.on THEN ~Allocated(s, a.m) ELSE CanFree(s, a.m))
    [] a.a = "fixl" -> a.l \in DOMAIN s.lays
    [] a.a = "mask" -> a.m \in Set(Members(s)) /\ s.mats[a.m].lay # 0
    [] a.a = "infer" -> CanInfer(s)
    [] a.a = "output" -> a.l \in DOMAIN s.lays
    [] a.a = "map" -> a.m \in Set(Members(s))
    [] a.a = "auto" -> a.l \in DOMAIN s.lays
    [] a.a = "refused" -> TRUE
    [] OTHER -> FALSE

\* ------------------------------------------------------------------ transitions
Matrix(dims, lay, ax, reg, fix, own, q) ==
  [dims |-> dims, lay |-> lay, ax |-> ax, par |-> <<>>, reg |-> reg, fix |-> fix, smp |-> 0, own |-> own, q |-> q]

AddMatrix(s, a) ==
  [s EXCEPT !.mats = Append(@, Matrix(a.dims, 0, -1, TRUE, a.fix = "yes", a.how \in {"given", "given64", "float"}, FALSE)),
            !.singles = Append(@, Len(s.mats) + 1)]

AddLayer(s, a) ==
  LET j == Len(s.lays) + 1
      \* a child given by its shape only is made on the spot
      base == IF a.child = 0 THEN Append(s.mats, Matrix(a.dims, 0, -1, FALSE, FALSE, FALSE, FALSE)) ELSE s.mats
      c == IF a.child = 0 THEN Len(base) ELSE a.child
      dims == base[c].dims
      fac == [k \in 1..Len(dims) |-> Len(base) + k]
      q == IF Kind(a.model) = "ql" THEN Len(base) + Len(dims) + 1 ELSE 0
      with == [base EXCEPT ![c].par = Append(@, j)]
              \o [k \in 1..Len(dims) |-> Matrix(<<dims[k], a.L>>, j, k - 1, TRUE, FALSE, FALSE, FALSE)]
              \o (IF q = 0 THEN <<>> ELSE <<Matrix(<<1, dims[2]>>, j, 1, TRUE, FALSE, FALSE, TRUE)>>)
  IN [s EXCEPT !.mats = with,
               !.lays = Append(@, [child |-> c, fac |-> fac, q |-> q, kind |-> Kind(a.model), size |-> a.L,
                                   lfix |-> FALSE, lsmp |-> 0, asked |-> FALSE, auto |-> "none", wide |-> 0])]

\* layers get new sizes: their factors follow, and what rests on those
Resized(s, sizes) ==
  FoldLeft(LAMBDA t, j :
             [t EXCEPT !.lays[j].size = sizes[j],
                       !.mats = [m \in DOMAIN t.mats |->
                                   IF m \in Set(t.lays[j].fac)
                                   THEN [t.mats[m] EXCEPT !.dims = <<t.mats[t.lays[j].child].dims[t.mats[m].ax + 1], sizes[j]>>]
                                   ELSE t.mats[m]]],
           s, [j \in DOMAIN s.lays |-> j])
\* the sizes an inference can end with
MayGrow(s, j) == s.lays[j].kind = "ibp" /\ ~s.mats[s.lays[j].fac[1]].fix
Sized(s, a) ==
  /\ Len(a.sizes) = Len(s.lays)
  /\ \A j \in DOMAIN s.lays : IF MayGrow(s, j) THEN a.sizes[j] >= 0
                              ELSE IF s.lays[j].auto # "none" THEN a.sizes[j] \in 0..s.lays[j].size
                              ELSE a.sizes[j] = s.lays[j].size

\* every free member then holds the new samples, every fixed one none
Infer(q, a) ==
  LET s == Resized(q, a.sizes)
      mem == Set(Members(s)) IN
  [s EXCEPT !.mats = [m \in DOMAIN s.mats |->
                        IF m \in mem THEN [s.mats[m] EXCEPT !.smp = IF s.mats[m].fix THEN 0 ELSE a.n] ELSE s.mats[m]],
            !.lays = [j \in DOMAIN s.lays |->
                        [s.lays[j] EXCEPT !.lsmp = IF s.lays[j].lfix THEN 0 ELSE a.n,
                                         !.wide = IF s.lays[j].kind = "ibp" THEN a.wide[j] ELSE 0]]]

\* an IBP layer is set to its mode as a whole: its samples may have had more
\* dimensions than its state has
Moded(s, m) ==
  LET j == s.mats[m].lay IN
  IF j # 0 /\ s.lays[j].kind = "ibp" THEN Set(s.lays[j].fac) ELSE {m}
ToMode(s, a) ==
  LET j == s.mats[a.m].lay IN
  IF j = 0 \/ (\A f \in Moded(s, a.m) : s.mats[f].smp = 0) \/ s.lays[j].kind # "ibp" THEN s
  ELSE Resized(s, [i \in DOMAIN s.lays |-> IF i = j THEN s.lays[j].wide ELSE s.lays[i].size])

Step(s, a) ==
  CASE a.a = "matrix" -> AddMatrix(s, a)
    [] a.a = "layer" -> AddLayer(s, a)
    [] a.a = "fix" -> [s EXCEPT !.mats[a.m].fix = a.on]
    [] a.a = "fixl" -> [s EXCEPT !.lays[a.l].lfix = a.on]
    [] a.a = "infer" -> Infer(s, a)
    [] a.a = "output" -> [s EXCEPT !.lays[a.l].asked = TRUE]
    [] a.a = "auto" -> [s EXCEPT !.lays[a.l].auto = a.how]
    [] a.a = "map" -> ToMode(s, a)
    [] OTHER -> s

\* which matrices may have other entries afterwards
MayChange(s, a) ==
  CASE a.a = "layer" -> IF a.child = 0 THEN {} ELSE {a.child}     \* inverted data
    [] a.a = "infer" -> {m \in Set(Members(s)) : ~s.mats[m].fix}
    [] a.a = "map" -> Moded(s, a.m)
    [] OTHER -> {}
MayChangeL(s, a) == IF a.a = "infer" THEN {j \in DOMAIN s.lays : ~s.lays[j].lfix} ELSE {}

\* ------------------------------------------------------------------- invariants
WellFormed(s) ==
  LET mem == Members(s)
      M == DOMAIN s.mats
  IN \* every matrix in exactly one place
     /\ Cardinality(Set(mem)) = Len(mem)
     /\ \A m \in M : (m \in Set(mem)) <=> s.mats[m].reg
     \* the two directions of the hierarchy agree
     /\ \A j \in DOMAIN s.lays :
          LET y == s.lays[j] IN
          /\ j \in Set(s.mats[y.child].par)
          /\ Len(y.fac) = Len(s.mats[y.child].dims)
          /\ \A k \in DOMAIN y.fac : LET f == s.mats[y.fac[k]] IN
               f.lay = j /\ f.ax = k - 1 /\ f.dims = <<s.mats[y.child].dims[k], y.size>>
     /\ \A m \in M : \A k \in DOMAIN s.mats[m].par : s.lays[s.mats[m].par[k]].child = m
     /\ \A m \in M : s.mats[m].lay # 0 => m \in Set(s.lays[s.mats[m].lay].fac) \cup {s.lays[s.mats[m].lay].q}
     \* layers only ever rest on older matrices
     /\ \A j \in DOMAIN s.lays : \A k \in DOMAIN s.lays[j].fac : s.lays[j].child < s.lays[j].fac[k]
     \* everything with samples has equally many
     /\ Cardinality({s.mats[m].smp : m \in M} \cup {s.lays[j].lsmp : j \in DOMAIN s.lays} \cup {0}) <= 2
=============================================================================
