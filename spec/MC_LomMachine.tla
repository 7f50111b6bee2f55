---------------------------- MODULE MC_LomMachine ---------------------------
(* Bounded instance: one layer with two factors of one row and L columns, one *)
(* fixed extra matrix, up to two dispersions.                                 *)
EXTENDS LomMachine
CONSTANTS Cols, LamVals, Ns, Ws, Mins, Maxs, Fixes, Runs, Free, FreeLs, Autos, Masks, Vec, Stops
VARIABLES win, upd, runs, started
vars == <<mvars, win, upd, runs, started>>

AutosNone == {<<FALSE, FALSE>>}
AutosBoth == {<<TRUE, FALSE>>, <<FALSE, TRUE>>}
Rows1(L) == {<<r>> : r \in [1..L -> {-1, 1}]}
Configs == {[n |-> n, W |-> w, eps |-> 1, bmin |-> a, bmax |-> b, fix |-> f, anneal |-> an,
             freeM |-> fm, freeL |-> fl, dom |-> [q \in 1..3 |-> {-1, 1}],
             layers |-> <<[fac |-> <<1, 2>>, clean |-> au[1], reset |-> au[2], vec |-> Vec, rows |-> {}]>>]
              : n \in Ns, w \in Ws, a \in Mins, b \in Maxs, f \in Fixes, an \in BOOLEAN,
                fm \in Free, fl \in FreeLs, au \in Autos}

Init ==
  /\ cfg = <<>> /\ phase = "idle" /\ pre = 0 /\ burn = 0 /\ samp = 0
  /\ todoM = {} /\ todoL = {}
  /\ val \in [1..3 -> Rows1(Cols)] /\ val[3] = <<[l \in 1..Cols |-> 1]>>
  /\ lam \in [1..1 -> IF Vec THEN [1..Cols + 1 -> LamVals] ELSE {<<x>> : x \in LamVals}]
  /\ mask \in {[m \in 1..3 |-> <<[l \in 1..Cols |-> IF m = 1 /\ l \in mk THEN 1 ELSE 0]>>] : mk \in Masks}
  /\ diff = <<>> /\ trM = <<>> /\ trL = <<>>
  /\ win = <<>> /\ upd = <<>> /\ runs = 0 /\ started = <<>>

Start ==
  /\ runs < Runs
  /\ \E c \in Configs :
       /\ Begin(c @@ [target |-> lam])
       /\ win' = [l \in c.freeL |-> <<>>]
       /\ upd' = [m \in c.freeM |-> 0]
       /\ started' = val
  /\ runs' = runs + 1

Sum(s) == LET RECURSIVE go(_)
              go(j) == IF j > Len(s) THEN 0 ELSE s[j][1] + go(j + 1) IN go(1)
\* difference of the means of the two halves, times (l1 * l2); a half without
\* values never converges
HalfDiff(s) ==
  LET h == Len(s) \div 2
      d == Sum(SubSeq(s, 1, h)) * (Len(s) - h) - Sum(SubSeq(s, h + 1, Len(s))) * h
  IN IF h = 0 THEN 99 ELSE IF d < 0 THEN -d ELSE d
Last(s) == IF Len(s) <= cfg.W THEN s ELSE SubSeq(s, Len(s) - cfg.W + 1, Len(s))

DoMat == \E m \in todoM : \E v \in Rows1(Width(<<val[m]>>)) :
           /\ SampleMat(m, v)
           /\ upd' = [upd EXCEPT ![m] = @ + 1]
           /\ UNCHANGED <<win, runs, started>>
LamNew(l) == IF Vec THEN {[k \in DOMAIN lam[l] |-> y] : y \in LamVals} ELSE {<<y>> : y \in LamVals}
DoLam == \E l \in todoL : \E y \in LamNew(l) :
           LET x == IF phase = "pre" /\ cfg.anneal
                    THEN [k \in DOMAIN lam[l] |-> (cfg.target[l][k] * (pre + 1)) \div cfg.bmin] ELSE y
               w == Last(Append(win[l], x))
           IN /\ UpdLam(l, x, HalfDiff(w))
              /\ win' = [win EXCEPT ![l] = w]
              /\ UNCHANGED <<upd, runs, started>>
DoEnd == EndIter /\ UNCHANGED <<win, upd, runs, started>>
\* candidate results of a check: some dimensions kept, possibly after a reset
Cand == LET fs == <<val[1], val[2]>>
            D == 1..Width(fs)
        IN {[v |-> v, S |-> S] : v \in {ResetOn(fs, T) : T \in SUBSET D}, S \in SUBSET D}
DoCheck == /\ phase = "check"
           /\ \E g \in Cand :
                Check(<<RestrictCols(g.v[1], g.S), RestrictCols(g.v[2], g.S), val[3]>>,
                      <<RestrictCols(mask[1], g.S), RestrictCols(mask[2], g.S), mask[3]>>,
                      <<IF Vec THEN RestrictRows(lam[1], g.S) \o <<lam[1][Len(lam[1])]>> ELSE lam[1]>>)
           /\ UNCHANGED <<win, upd, runs, started>>
DoStop == /\ Stops /\ phase # "idle"
          /\ \/ Interrupt(val, lam)
             \/ \E m \in todoM : \E v \in Rows1(Width(<<val[m]>>)) : Interrupt([val EXCEPT ![m] = v], lam)
             \/ \E l \in todoL : \E x \in LamNew(l) : Interrupt(val, [lam EXCEPT ![l] = x])
          /\ UNCHANGED <<win, upd, runs, started>>
Next == Start \/ DoMat \/ DoLam \/ DoEnd \/ DoCheck \/ DoStop
Spec == Init /\ [][Next]_vars /\ WF_vars(DoMat \/ DoLam \/ DoEnd \/ DoCheck)

\* --------------------------------------------------------------- properties
Running == phase # "idle"
TypeOK ==
  /\ phase \in {"idle", "pre", "check", "burn", "sample"}
  /\ \A m \in 1..3 : EntriesIn(val[m], {-1, 1})
  /\ runs > 0 => todoM \subseteq cfg.freeM /\ todoL \subseteq cfg.freeL
Mx(a, b) == IF a >= b THEN a ELSE b
\* C10
NeverBeyondMax == Running => pre + burn <= Mx(cfg.bmin, cfg.bmax)
MinimumDone == phase \in {"burn", "sample"} => pre = cfg.bmin
StoppedForAReason ==
  (phase = "sample" /\ samp = 0 /\ todoM = cfg.freeM /\ todoL = cfg.freeL) =>
     (AtMax \/ (Due /\ \A l \in cfg.freeL : diff[l] < cfg.eps))
\* C10: the check looks at exactly the last window
WindowExact == (phase = "check" /\ Due) => \A l \in cfg.freeL : Len(win[l]) = cfg.W
                                              /\ diff[l] = HalfDiff(win[l])
\* C10, C11
HeldDuringFix == (Running /\ phase = "pre" /\ pre < cfg.fix) => \A l \in cfg.freeL : lam[l] = cfg.target[l]
RampEnds == (Running /\ cfg.anneal /\ cfg.bmin > 0 /\ pre = cfg.bmin /\ burn = 0 /\ phase = "check")
               => \A l \in cfg.freeL : lam[l] = cfg.target[l]
\* C09
\* (an interrupted inference holds the samples it has got to)
Ended == phase = "idle" /\ runs > 0 /\ (Stops => samp = cfg.n)
Recorded == runs > 0 => /\ \A m \in cfg.freeM : Len(trM[m]) = samp
                        /\ \A l \in cfg.freeL : Len(trL[l]) = samp
Complete == Ended =>
  /\ samp = cfg.n
  /\ \A m \in cfg.freeM : Len(trM[m]) = cfg.n
  /\ \A l \in cfg.freeL : Len(trL[l]) = cfg.n
  /\ cfg.n > 0 => \A m \in cfg.freeM : trM[m][cfg.n] = val[m]
  /\ cfg.n > 0 => \A l \in cfg.freeL : trL[l][cfg.n] = lam[l]
OncePerIteration == Running =>
  \A m \in cfg.freeM : upd[m] = pre + burn + samp
     + (IF phase \in {"pre", "burn", "sample"} /\ m \notin todoM THEN 1 ELSE 0)
\* C07
FixedStay == runs > 0 =>
  \A m \in 1..3 : \A j \in DOMAIN val[m][1] :
     (m \notin cfg.freeM /\ ~(\E q \in DOMAIN cfg.layers : Auto(cfg.layers[q]))) => val[m] = started[m]
MaskStay == (runs > 0 /\ ~(\E q \in DOMAIN cfg.layers : Auto(cfg.layers[q]))) =>
  \A m \in 1..3 : Masked(mask[m], started[m], val[m])
\* what ends an inference early changes one member at most, and declares nothing anew
StopKeeps == [][(Running /\ ~Running' /\ Stops) =>
                 /\ mask' = mask /\ cfg' = cfg
                 /\ \A m \in 1..3 : val'[m] # val[m] => m \in todoM
                 /\ Cardinality({m \in 1..3 : val'[m] # val[m]}) + (IF lam' # lam THEN 1 ELSE 0) <= 1]_vars
FixedLamStay == [][(Running /\ Running' /\ ~Vec) => \A l \in 1..1 : l \notin cfg.freeL => lam'[l] = lam[l]]_vars
\* C12
CleanAtSampling == (phase = "sample" /\ samp = 0 /\ todoM = cfg.freeM) =>
  \A q \in DOMAIN cfg.layers :
     (cfg.layers[q].clean /\ Converged) => ~Redundant(FactorsOf(cfg.layers[q], val))
Aligned == \A m \in 1..2 : SameShape(val[m], mask[m]) /\ Width(<<val[m]>>) = Width(<<val[1]>>)
             /\ (Vec => Len(lam[1]) = Width(<<val[1]>>) + 1)
RecordOnlyAtEnd == [][(trM' # trM /\ Running' /\ samp' = samp + 1) => (todoM = {} /\ todoL = {})]_vars
Terminates == Running ~> ~Running
=============================================================================
