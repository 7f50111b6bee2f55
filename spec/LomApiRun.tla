----------------------------- MODULE LomApiRun ------------------------------
(* Histories generated from LomApi and replayed in the code: after every     *)
(* action, what the code shows must be the state the specification reaches.  *)
EXTENDS LomApi, Lom, Events
Clause(name, ok) == IF ok THEN {} ELSE {name}

Latent(s, m) == s.mats[m].lay # 0
\* entries: rows of integers (three dimensions flattened to rows)
RowsOf(dims) == dims[1]
ColsOf(dims) == IF Len(dims) = 2 THEN dims[2] ELSE dims[2] * dims[3]
Shaped(v, dims) == Len(v) = RowsOf(dims) /\ \A i \in DOMAIN v : Len(v[i]) = ColsOf(dims)
All(v, P(_)) == \A i \in DOMAIN v : \A j \in DOMAIN v[i] : P(v[i][j])
Both(v, w, P(_, _)) == \A i \in DOMAIN v : \A j \in DOMAIN v[i] : P(v[i][j], w[i][j])
Sign(v) == [i \in DOMAIN v |-> [j \in DOMAIN v[i] |-> IF v[i][j] > 0 THEN 1 ELSE -1]]
Neg(v) == [i \in DOMAIN v |-> [j \in DOMAIN v[i] |-> -v[i][j]]]

\* structure: what is shown of the machine against the state
Structure(s, o) ==
     Clause("members", o.members = Members(s))
     \cup Clause("dispersions", o.lbdas = [j \in DOMAIN s.lays |-> j])
     \cup Clause("number of matrices", Len(o.mats) = Len(s.mats))
     \cup Clause("number of layers", Len(o.lays) = Len(s.lays))
     \cup (IF Len(o.mats) # Len(s.mats) \/ Len(o.lays) # Len(s.lays) THEN {} ELSE
      UNION {LET x == s.mats[m]
                 y == o.mats[m]
             IN Clause("shape", y.dims = x.dims /\ Shaped(y.val, x.dims) /\ Shaped(y.mask, x.dims))
                \cup Clause("layer of a matrix", y.lay = x.lay)
                \cup Clause("axis", x.lay # 0 => y.ax = x.ax)
                \cup Clause("siblings", y.sib = Siblings(s, m))
                \cup Clause("parents", y.par = x.par)
                \cup Clause("fixed", x.reg => y.fix = x.fix)
                \cup Clause("samples", y.smp = x.smp)
                \cup Clause("model of a matrix", y.model = IF x.lay = 0 THEN "none" ELSE o.lays[x.lay].model)
             : m \in DOMAIN s.mats}
      \cup UNION {LET x == s.lays[j]
                      y == o.lays[j]
                  IN Clause("child", y.child = x.child)
                     \cup Clause("factors", y.fac = x.fac /\ y.iter = x.fac)
                     \cup Clause("factors by name", y.names = SubSeq(x.fac, 1, MinOf(3, Len(x.fac))))
                     \cup Clause("thresholds", y.q = x.q)
                     \cup Clause("size", y.size = x.size /\ y.dim = Len(x.fac))
                     \cup Clause("kind of model", Kind(y.model) = x.kind /\ (x.kind = "lom" => <<y.o, y.i>> \in Canonical))
                     \cup Clause("name", y.repr = y.o \o "_" \o y.i \o "_" \o ToString(Len(x.fac)) \o "D")
                     \cup Clause("fixed dispersion", y.lfix = x.lfix)
                     \cup Clause("dispersion samples", y.lsmp = x.lsmp)
                     \cup Clause("samples of a layer", y.ns = Samples(s, j))
                     \cup Clause("dispersion shape", Len(y.lam) = IF x.kind = "max" THEN x.size + 1 ELSE 1)
                     \cup Clause("machine", y.mach)
                  : j \in DOMAIN s.lays})

\* columns can move: dimensions cleaned in one place and grown in another
Moving(s, a) ==
  IF a.a # "infer" THEN {}
  ELSE UNION {IF MayGrow(s, j) THEN Set(s.lays[j].fac) ELSE {} : j \in DOMAIN s.lays}

\* dimensions that are reset are so in all factors
CanReset(s, a, m) == a.a = "infer" /\ Latent(s, m) /\ ~s.mats[m].q /\ s.lays[s.mats[m].lay].auto = "reset"

\* samples of an IBP layer: dimensions the state lacks are off
Ends(last, val, wide) ==
  /\ Len(last) = Len(val)
  /\ \A i \in DOMAIN val : Len(last[i]) = wide
        /\ \A k \in DOMAIN last[i] : last[i][k] = IF k \in DOMAIN val[i] THEN val[i][k] ELSE -1
\* the mode of a matrix
ModeOf(s, m, before, after) ==
  IF s.mats[m].q
  THEN IF s.mats[m].smp = 0 THEN after.val = before.val
       ELSE \A k \in DOMAIN after.val[1] : LET c == before.count[k] IN
              after.val[1][k] \in DOMAIN c /\ \A v \in DOMAIN c : c[v] <= c[after.val[1][k]]
  ELSE IF Latent(s, m) THEN after.val = Sign(before.mean)
  ELSE after.val = [i \in DOMAIN before.val |-> [k \in DOMAIN before.val[i] |->
                      IF before.val[i][k] = 0 THEN 0 ELSE Sign(before.mean)[i][k]]]

\* entries and dispersions: s before, t after, p shown before, o shown after
Values(s, t, a, p, o) ==
  LET old == DOMAIN s.mats
      may == MayChange(s, a)
      mayl == MayChangeL(s, a)
      new == DOMAIN t.mats \ old
      \* dimensions that are cleaned go from all members
      kept == {m \in old : t.mats[m].dims = s.mats[m].dims}
  IN Clause("entries of others changed", \A m \in kept \ may :
               \/ o.mats[m].val = p.mats[m].val
               \/ CanReset(s, a, m) /\ \A k \in 1..ColsOf(s.mats[m].dims) :
                    LET was == [i \in DOMAIN p.mats[m].val |-> p.mats[m].val[i][k]]
                        is == [i \in DOMAIN p.mats[m].val |-> o.mats[m].val[i][k]]
                    IN is = was \/ \A i \in DOMAIN is : is[i] = -1)
     \cup Clause("masks of others changed", \A m \in kept \ Moving(s, a) : (a.a = "mask" /\ a.m = m) \/ o.mats[m].mask = p.mats[m].mask)
     \cup Clause("dispersions changed", \A j \in DOMAIN s.lays \ mayl : s.lays[j].size # t.lays[j].size \/ o.lays[j].lam = p.lays[j].lam)
     \cup Clause("settings of layers changed", \A j \in DOMAIN s.lays : (a.a = "auto" /\ a.l = j) \/ o.lays[j].set = p.lays[j].set)
     \cup Clause("latent values", \A m \in DOMAIN t.mats :
            Latent(t, m) /\ ~t.mats[m].q => All(o.mats[m].val, LAMBDA v : v \in {-1, 1}))
     \cup Clause("data values", \A m \in DOMAIN t.mats : ~Latent(t, m) => All(o.mats[m].val, LAMBDA v : v \in {-1, 0, 1}))
     \cup Clause("mean", \A m \in DOMAIN t.mats :
            o.mats[m].mean = IF t.mats[m].smp = 0 THEN o.mats[m].val ELSE o.mats[m].sum)
     \cup CASE a.a = "matrix" ->
                 LET m == Len(t.mats) IN
                 Clause("given entries", t.mats[m].own => o.mats[m].val = a.given)
                 \cup Clause("random entries", ~t.mats[m].own => All(o.mats[m].val, LAMBDA v : v \in {-1, 1}))
                 \cup Clause("given mask", o.mats[m].mask = a.gmask)
            [] a.a = "layer" ->
                 LET j == Len(t.lays)
                     c == t.lays[j].child IN
                 Clause("initial thresholds", t.lays[j].q # 0 => All(o.mats[t.lays[j].q].val, LAMBDA v : v = 1))
                 \* dimensions start alike, the clamp of a MAX layer below them
                 \cup Clause("initial dispersion", LET q == o.lays[j].lam IN
                        \A k \in DOMAIN q : q[k] > 0 /\ (t.lays[j].kind = "max" =>
                           q[k] < 1000000 /\ (IF k = Len(q) THEN k = 1 \/ q[k] < q[1] ELSE q[k] = q[1])))
                 \cup Clause("no entry is fixed at first", \A m \in new : All(o.mats[m].mask, LAMBDA v : v = 0))
                 \cup Clause("data of the layer", a.child = 0 \/ o.mats[c].val = IF o.lays[j].invd THEN Neg(p.mats[c].val) ELSE p.mats[c].val)
                 \cup Clause("inversions", t.lays[j].kind # "lom" => ~o.lays[j].invd /\ ~o.lays[j].invf)
            [] a.a = "infer" ->
                 Clause("last sample", \A m \in DOMAIN t.mats : t.mats[m].smp > 0 =>
                   LET j == t.mats[m].lay IN
                   IF j # 0 /\ t.lays[j].kind = "ibp" /\ ~t.mats[m].q THEN Ends(o.mats[m].last, o.mats[m].val, t.lays[j].wide)
                   ELSE o.mats[m].last = o.mats[m].val)
                 \cup Clause("last dispersion sample", \A j \in DOMAIN t.lays : t.lays[j].lsmp > 0 => o.lays[j].last = o.lays[j].lam)
                 \cup Clause("fixed entries", \A m \in (may \cap kept) \ Moving(s, a) : Both(p.mats[m].mask, [i \in DOMAIN p.mats[m].val |-> [k \in DOMAIN p.mats[m].val[i] |->
                             \/ p.mats[m].val[i][k] = o.mats[m].val[i][k]
                             \/ CanReset(s, a, m) /\ o.mats[m].val[i][k] = -1]], LAMBDA f, same : f = 1 => same))
                 \cup Clause("missing entries", \A m \in may \cap kept : ~Latent(t, m) =>
                             Both(p.mats[m].val, o.mats[m].val, LAMBDA v, w : (v = 0) <=> (w = 0)))
                 \cup Clause("probabilities", \A j \in DOMAIN t.lays : t.lays[j].kind = "max" =>
                             \A k \in DOMAIN o.lays[j].lam : o.lays[j].lam[k] \in 0..1000000)
            [] a.a = "map" -> Clause("mode", \A m \in Moded(s, a.m) : ModeOf(s, m, p.mats[m], o.mats[m]))
            [] a.a = "refused" -> Clause("accepted", o.refused)
            [] OTHER -> {}

\* an output a.out (1e-6) with a.dims; last: the previous one as probabilities
Prob(a) == IF a.prob THEN a.out ELSE [i \in DOMAIN a.out |-> (a.out[i] + 1000000) \div 2]
Close(u, v) == Len(u) = Len(v) /\ \A i \in DOMAIN u : Abs(u[i] - v[i]) <= 2
Flat(fs, mo, ix) == IF Cell(mo.o, mo.i, [k \in DOMAIN fs |-> fs[k][ix[k]]]) THEN 1000000 ELSE 0
Product(fs, mo) ==
  LET n == [k \in DOMAIN fs |-> Len(fs[k])] IN
  IF Len(fs) = 2
  THEN [c \in 1..(n[1] * n[2]) |-> Flat(fs, mo, <<(c - 1) \div n[2] + 1, (c - 1) - ((c - 1) \div n[2]) * n[2] + 1>>)]
  ELSE LET d == n[2] * n[3] IN
       [c \in 1..(n[1] * d) |->
          LET r == (c - 1) - ((c - 1) \div d) * d IN
          Flat(fs, mo, <<(c - 1) \div d + 1, r \div n[3] + 1, r - (r \div n[3]) * n[3] + 1>>)]
Output(s, a, o, last) ==
  LET y == s.lays[a.l]
      pr == Prob(a)
      mo == IF y.kind = "ibp" THEN [o |-> "OR", i |-> "AND"] ELSE o.lays[a.l]
      fs == [k \in DOMAIN y.fac |-> o.mats[y.fac[k]].val]
      fm == [k \in DOMAIN y.fac |-> Sign(o.mats[y.fac[k]].mean)]
  IN Clause("shape of the output", (a.lazy /\ y.asked) \/ a.dims = s.mats[y.child].dims)
     \cup Clause("range of the output", \A i \in DOMAIN pr : pr[i] \in -1..1000001)
     \cup (IF a.lazy /\ y.asked THEN Clause("lazy output", Close(pr, last))
           ELSE IF y.kind \in {"max", "ql"} \/ a.noisy THEN {}
           ELSE IF a.how = "point_estimate" THEN Clause("output of the state", Close(pr, Product(fs, mo)))
           ELSE IF a.how = "factor_map" THEN Clause("output of the mode", Close(pr, Product(fm, mo)))
           ELSE {})

RECURSIVE Judge(_, _, _, _, _, _)
\* s: state, p: shown before, outs: last output of each layer
Judge(s, p, outs, hist, shown, k) ==
  IF k > Len(hist) THEN {}
  ELSE LET a == hist[k]
           o == shown[k]
       IN IF ~Enabled(s, a) THEN {"not a history of the specification"}
          ELSE IF a.a = "infer" /\ ~Sized(s, a) THEN {"sizes"}
          ELSE LET t == Step(s, a)
                   st == Structure(t, o)
                   bad == IF st # {} THEN st
                          ELSE Values(s, t, a, p, o) \cup (IF a.a = "output" THEN Output(s, a, o, outs[a.l]) ELSE {})
                   nxt == IF a.a = "output" THEN [outs EXCEPT ![a.l] = Prob(a)]
                          ELSE IF a.a = "layer" THEN Append(outs, <<>>) ELSE outs
               IN IF bad # {} THEN bad ELSE Judge(t, o, nxt, hist, shown, k + 1)

Nothing == [mats |-> <<>>, lays |-> <<>>]
FailedApi(o) == Judge(Empty, Nothing, <<>>, o.hist, o.shown, 1)
=============================================================================
