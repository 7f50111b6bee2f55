----------------------------- MODULE LomMachine -----------------------------
(* Life cycle of a machine: repeated inferences, each a minimum burn-in       *)
(* phase, a burn-in with convergence checks (and automatic cleaning), and a   *)
(* sampling phase.  Values of matrices are arrays of rows; dispersions are    *)
(* sequences of integers (length one except for MAX-AND).  What an update may *)
(* write is left open here (it is the subject of Kernel), except that it      *)
(* respects fixed entries and the value domain.                               *)
EXTENDS Clean, TLC
VARIABLES cfg,      \* configuration of the current inference
          phase,    \* "idle", "pre", "check", "burn", "sample"
          pre, burn, samp,       \* completed iterations of each phase
          todoM, todoL,          \* members still to be updated in this iteration
          val, mask, lam,        \* matrices, their masks of fixed entries (1: fixed),
                                 \* dispersions
          diff,                  \* per dispersion: difference of the logistic means
                                 \* of the two halves of the last W burn-in values
          trM, trL               \* recorded samples
mvars == <<cfg, phase, pre, burn, samp, todoM, todoL, val, mask, lam, diff, trM, trL>>

\* cfg: [n, W, eps, bmin, bmax, fix, anneal, freeM, freeL, dom, target, layers]
\*   dom[m]: values allowed for a free matrix; target[l]: dispersion when started
\*   layers: sequence of [fac, clean, reset, vec, rows]; dispersion j belongs to
\*   layer j; vec: it has one value per latent dimension (and a baseline); rows:
\*   matrices whose rows are the layer's latent dimensions (factors of parents)

UpdatesLam(ph, k) == ~(ph = "pre" /\ k < cfg.fix)

StartIter(ph, k) ==
  /\ todoM' = cfg.freeM
  /\ todoL' = IF UpdatesLam(ph, k) THEN cfg.freeL ELSE {}
NoIter == todoM' = {} /\ todoL' = {}

EnterSample ==
  /\ trM' = [m \in cfg.freeM |-> <<>>]
  /\ trL' = [l \in cfg.freeL |-> <<>>]
  /\ samp' = 0
  /\ IF cfg.n = 0 THEN phase' = "idle" /\ NoIter
     ELSE phase' = "sample" /\ StartIter("sample", 0)

Rejected(c) == c.anneal /\ c.fix # 0

Begin(c) ==
  /\ phase = "idle"
  /\ ~Rejected(c)
  /\ cfg' = c
  /\ pre' = 0 /\ burn' = 0 /\ samp' = 0
  /\ diff' = [l \in c.freeL |-> 0]
  /\ trM' = [m \in c.freeM |-> <<>>]
  /\ trL' = [l \in c.freeL |-> <<>>]
  /\ IF c.bmin > 0
     THEN /\ phase' = "pre"
          /\ todoM' = c.freeM
          /\ todoL' = IF c.fix > 0 THEN {} ELSE c.freeL
     ELSE phase' = "check" /\ NoIter
  /\ UNCHANGED <<val, mask, lam>>

\* ----------------------------------------------------------------- updates
Respects(m, v) ==
  /\ SameShape(val[m], v)
  /\ EntriesIn(v, cfg.dom[m])
  /\ Masked(mask[m], val[m], v)

SampleMat(m, v) ==
  /\ phase \in {"pre", "burn", "sample"}
  /\ m \in todoM
  /\ Respects(m, v)
  /\ val' = [val EXCEPT ![m] = v]
  /\ todoM' = todoM \ {m}
  /\ UNCHANGED <<cfg, phase, pre, burn, samp, todoL, mask, lam, diff, trM, trL>>

\* the ramp: after iteration k of bmin the value is target * k / bmin
OnRamp(l, x, k) ==
  /\ Len(x) = Len(cfg.target[l])
  /\ \A j \in DOMAIN x : LET d == x[j] * cfg.bmin - cfg.target[l][j] * k
                         IN d <= cfg.bmin /\ -d <= cfg.bmin

UpdLam(l, x, d) ==
  /\ phase \in {"pre", "burn", "sample"}
  /\ todoM = {}
  /\ l \in todoL
  /\ (phase = "pre" /\ cfg.anneal) => OnRamp(l, x, pre + 1)
  /\ lam' = [lam EXCEPT ![l] = x]
  /\ diff' = [diff EXCEPT ![l] = d]
  /\ todoL' = todoL \ {l}
  /\ UNCHANGED <<cfg, phase, pre, burn, samp, todoM, val, mask, trM, trL>>

EndIter ==
  /\ phase \in {"pre", "burn", "sample"}
  /\ todoM = {} /\ todoL = {}
  /\ CASE phase = "pre" ->
            /\ pre' = pre + 1
            /\ IF pre + 1 = cfg.bmin THEN phase' = "check" /\ NoIter
               ELSE phase' = "pre" /\ StartIter("pre", pre + 1)
            /\ UNCHANGED <<burn, samp, trM, trL>>
       [] phase = "burn" ->
            /\ burn' = burn + 1 /\ phase' = "check" /\ NoIter
            /\ UNCHANGED <<pre, samp, trM, trL>>
       [] phase = "sample" ->
            /\ samp' = samp + 1
            /\ trM' = [m \in cfg.freeM |-> Append(trM[m], val[m])]
            /\ trL' = [l \in cfg.freeL |-> Append(trL[l], lam[l])]
            /\ IF samp + 1 = cfg.n THEN phase' = "idle" /\ NoIter
               ELSE phase' = "sample" /\ StartIter("sample", 0)
            /\ UNCHANGED <<pre, burn>>
  /\ UNCHANGED <<cfg, val, mask, lam, diff>>

\* ------------------------------------------------------ convergence checks
Due == burn > 0 /\ burn >= cfg.W /\ burn - cfg.W * (burn \div cfg.W) = 0
Converged == Due /\ \A l \in cfg.freeL : diff[l] < cfg.eps
AtMax == pre + burn >= cfg.bmax

FactorsOf(ly, v) == [k \in DOMAIN ly.fac |-> v[ly.fac[k]]]
Auto(ly) == ly.clean \/ ly.reset
Dirty == {j \in DOMAIN cfg.layers : Auto(cfg.layers[j])
                                    /\ Redundant(FactorsOf(cfg.layers[j], val))}
AnyDirty == Converged /\ Dirty # {}

Done == Converged /\ ~AnyDirty

\* everything aligned with the latent dimensions of layer j, restricted to S
KeepDims(j, S, v, w, mk, lm) ==
  LET ly == cfg.layers[j]
  IN /\ \A k \in DOMAIN ly.fac : /\ w[ly.fac[k]] = RestrictCols(v[k], S)
                                 /\ mk[ly.fac[k]] = RestrictCols(mask[ly.fac[k]], S)
     /\ \A r \in ly.rows : w[r] = RestrictRows(val[r], S) /\ mk[r] = RestrictRows(mask[r], S)
     /\ lm[j] = IF ly.vec THEN RestrictRows(lam[j], S) \o <<lam[j][Len(lam[j])]>> ELSE lam[j]
All(j) == 1..Width(FactorsOf(cfg.layers[j], val))

\* what automatic cleaning may do to layer j at this check; stop: the maximum has
\* been reached without convergence
CleanedLayer(j, stop, w, mk, lm) ==
  LET ly == cfg.layers[j]
      a  == FactorsOf(ly, val)
      Removed(v) == \E S \in SurvivorSets(v) : KeepDims(j, S, v, w, mk, lm)
      Reset == {ResetOn(a, S) : S \in SurvivorSets(a)}
  IN IF AnyDirty /\ j \in Dirty
     THEN IF ~ly.reset THEN Removed(a)
          ELSE IF stop THEN \E c \in Reset : Removed(c)
          ELSE \E c \in Reset : KeepDims(j, All(j), c, w, mk, lm)
     ELSE IF stop /\ ly.reset THEN Removed(a)
     ELSE KeepDims(j, All(j), a, w, mk, lm)

\* matrices that belong to no layer, and whose rows follow no layer
Loose(m) == \A j \in DOMAIN cfg.layers :
              /\ \A k \in DOMAIN cfg.layers[j].fac : cfg.layers[j].fac[k] # m
              /\ m \notin cfg.layers[j].rows
\* layers one of whose factors follows the dimensions of another layer are
\* never cleaned themselves (see Begin)
Follows(j) == \E i \in DOMAIN cfg.layers : \E k \in DOMAIN cfg.layers[j].fac :
                 cfg.layers[j].fac[k] \in cfg.layers[i].rows
CleanedTo(stop, w, mk, lm) ==
  /\ \A m \in DOMAIN val : Loose(m) => w[m] = val[m] /\ mk[m] = mask[m]
  /\ \A j \in DOMAIN cfg.layers :
       IF Follows(j)
       THEN /\ lm[j] = lam[j]
            /\ \A k \in DOMAIN cfg.layers[j].fac :
                 LET m == cfg.layers[j].fac[k]
                 IN (\A i \in DOMAIN cfg.layers : m \notin cfg.layers[i].rows)
                      => w[m] = val[m] /\ mk[m] = mask[m]
       ELSE CleanedLayer(j, stop, w, mk, lm)

\* go: burn-in ends here (decided by Done and AtMax in the design; trace validation
\* of other aspects may follow the recorded decision)
CheckAs(go, w, mk, lm) ==
  /\ phase = "check"
  /\ CleanedTo(go /\ ~Done, w, mk, lm)
  /\ val' = w /\ mask' = mk /\ lam' = lm
  /\ IF go THEN EnterSample
     ELSE phase' = "burn" /\ StartIter("burn", 0) /\ UNCHANGED <<samp, trM, trL>>
  /\ UNCHANGED <<cfg, pre, burn, diff>>
Check(w, mk, lm) == CheckAs(Done \/ AtMax, w, mk, lm)

\* ------------------------------------------------------------ interruption
\* An inference may end at any moment (a raised exception, a user's interrupt).
\* Everything keeps the value it has got to; at most the one member whose update
\* was under way may have changed, within what its update may do.  (Not while
\* dimensions are being removed: automatic cleaning is not covered.)
InterruptedTo(w, lm) ==
  \/ w = val /\ lm = lam
  \/ /\ phase \in {"pre", "burn", "sample"} /\ lm = lam
     /\ \E m \in todoM : /\ Respects(m, w[m])
                        /\ \A k \in DOMAIN val \ {m} : w[k] = val[k]
  \/ /\ phase \in {"pre", "burn", "sample"} /\ todoM = {} /\ w = val
     /\ \E l \in todoL : /\ Len(lm[l]) = Len(lam[l])
                        /\ (phase = "pre" /\ cfg.anneal) => OnRamp(l, lm[l], pre + 1)
                        /\ \A k \in DOMAIN lam \ {l} : lm[k] = lam[k]
Interrupt(w, lm) ==
  /\ phase # "idle"
  /\ InterruptedTo(w, lm)
  /\ phase' = "idle" /\ NoIter
  /\ val' = w /\ lam' = lm
  /\ UNCHANGED <<cfg, pre, burn, samp, mask, diff, trM, trL>>
=============================================================================
