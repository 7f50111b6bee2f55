------------------------------ MODULE LomTrace ------------------------------
(* Validates recorded inferences (one line each) against LomMachine: every   *)
(* recorded update must be an enabled step of the specification in the state *)
(* the specification has reached, with the recorded result; iterations,      *)
(* phases and convergence checks are steps the specification takes by itself.*)
(* A deviation is reported under the property it violates and ends the       *)
(* validation of that line.                                                  *)
EXTENDS LomMachine, Json, IOUtils
CONSTANT Failed(_)              \* judges lines that are not inferences
VARIABLES ck, idx, pos
tvars == <<mvars, ck, idx, pos>>
Trace == ndJsonDeserialize(IOEnv.TRACE)
NC == atoi(IOEnv.CHUNKS)
Prop == IOEnv.PROP
CS == (Len(Trace) + NC - 1) \div NC
Lo(c) == (c - 1) * CS + 1
Hi(c) == IF c * CS < Len(Trace) THEN c * CS ELSE Len(Trace)
\* these judge when burn-in stops; the others follow the recorded stop
Full == Prop \in {"C10", "C12", "C29"}
e == Trace[idx]
R(p, name) == {<<p, name>>}
None == {}
\* what is wrong with an inference that follows an interrupted one is its doing
Report(bad) == \A b \in bad : (b[1] = Prop \/ (Prop = "C29" /\ e.after)) => PrintT(<<"VIOL", idx, b[2]>>)
If(c, p, name) == IF c THEN R(p, name) ELSE None

Idle ==
  /\ cfg' = <<>> /\ phase' = "idle" /\ pre' = 0 /\ burn' = 0 /\ samp' = 0
  /\ todoM' = {} /\ todoL' = {} /\ val' = <<>> /\ mask' = <<>> /\ lam' = <<>>
  /\ diff' = <<>> /\ trM' = <<>> /\ trL' = <<>>
NextLine == idx' = idx + 1 /\ pos' = -1 /\ Idle

TraceInit ==
  /\ ck \in 1..NC /\ idx = Lo(ck) /\ pos = -1
  /\ cfg = <<>> /\ phase = "idle" /\ pre = 0 /\ burn = 0 /\ samp = 0
  /\ todoM = {} /\ todoL = {} /\ val = <<>> /\ mask = <<>> /\ lam = <<>>
  /\ diff = <<>> /\ trM = <<>> /\ trL = <<>>

Set(s) == {s[j] : j \in DOMAIN s}
Config ==
  [n |-> e.n, W |-> e.W, eps |-> e.eps, bmin |-> e.bmin, bmax |-> e.bmax, fix |-> e.fix,
   anneal |-> e.anneal, freeM |-> Set(e.freeM), freeL |-> Set(e.freeL),
   dom |-> [m \in DOMAIN e.dom |-> Set(e.dom[m])], target |-> e.lam,
   layers |-> [j \in DOMAIN e.layers |->
      [fac |-> e.layers[j].fac, clean |-> e.layers[j].clean, reset |-> e.layers[j].reset,
       vec |-> e.layers[j].vec, rows |-> Set(e.layers[j].rows)]]]

Adopt ==
  /\ val' = e.val /\ mask' = e.mask /\ lam' = e.lam
  /\ pos' = 0
  /\ UNCHANGED <<cfg, phase, pre, burn, samp, todoM, todoL, diff, trM, trL, ck, idx>>

\* ------------------------------------------------------------ judgements
Ev == e.ev[pos]
Iterating == phase \in {"pre", "burn", "sample"}
Unfixed(m) == m \in cfg.freeM
\* a change of a matrix or a dispersion that is part of no update
ChangeBad(ev) ==
  LET badfix == \/ \E m \in DOMAIN val : /\ ev.val[m] # val[m]
                      /\ (~Unfixed(m) \/ ~SameShape(val[m], ev.val[m])
                            \/ ~Masked(mask[m], val[m], ev.val[m]))
                \/ \E l \in DOMAIN lam : ev.lam[l] # lam[l] /\ l \notin cfg.freeL
                \/ ev.mask # mask
  IN IF badfix THEN R("C07", "changed though fixed") ELSE R("C09", "changed outside its update")
MBad(ev) ==
  IF ev.m \notin cfg.freeM THEN R("C07", "fixed matrix updated")
  ELSE IF ~SameShape(val[ev.m], ev.v) THEN R("C07", "shape")
  ELSE IF ~EntriesIn(ev.v, cfg.dom[ev.m]) THEN R("C07", "domain")
  ELSE IF ~Masked(mask[ev.m], val[ev.m], ev.v) THEN R("C07", "fixed entry changed")
  ELSE IF ev.m \notin todoM THEN R("C09", "order of updates")
  ELSE None
LBad(ev) ==
  IF ev.l \notin cfg.freeL THEN R("C07", "fixed dispersion updated")
  ELSE IF ev.l \notin todoL
       THEN IF phase = "pre" /\ ~UpdatesLam("pre", pre) THEN R("C10", "updated while held")
            ELSE R("C09", "order of updates")
  ELSE IF todoM # {} THEN R("C09", "order of updates")
  ELSE IF phase = "pre" /\ cfg.anneal /\ ~OnRamp(ev.l, ev.x, pre + 1) THEN R("C11", "ramp")
  ELSE None

Near(a, b) == Len(a) = Len(b) /\ \A j \in DOMAIN a : a[j] - b[j] <= 3 /\ b[j] - a[j] <= 3
RECURSIVE SumRows(_, _, _, _)
SumRows(t, n, i, j) == IF n = 0 THEN 0 ELSE t[n][i][j] + SumRows(t, n - 1, i, j)
RECURSIVE SumLam(_, _, _)
SumLam(t, n, j) == IF n = 0 THEN 0 ELSE t[n][j] + SumLam(t, n - 1, j)
SameTrace(a, b) == a = b
\* means: e.meanM[m] = n * mean (rounded), e.meanL[l] = mean in micro
MeanOK(m, ev) ==
  \/ cfg.n = 0
  \/ /\ SameShape(ev.meanM[m], val[m])
     /\ \A i \in DOMAIN val[m] : \A j \in DOMAIN val[m][i] :
          ev.meanM[m][i][j] = SumRows(trM[m], cfg.n, i, j)
MeanLOK(l, ev) ==
  \/ cfg.n = 0
  \/ /\ Len(ev.meanL[l]) = Len(lam[l])
     /\ \A j \in DOMAIN lam[l] :
          LET d == ev.meanL[l][j] * cfg.n - SumLam(trL[l], cfg.n, j)
          IN d <= 3 * cfg.n /\ -d <= 3 * cfg.n
EndBad(ev) ==
  IF phase # "idle" THEN (IF Full THEN R("C10", "stopped early") ELSE R("C09", "iteration incomplete"))
  ELSE IF ev.val # val \/ ~(\A l \in DOMAIN lam : Near(ev.lam[l], lam[l])) \/ ev.mask # mask
       THEN ChangeBad(ev)
  ELSE If(ev.biters # -1 /\ ev.biters # pre + burn, "C10", "reported number of burn-in iterations")
  \cup If(\E m \in cfg.freeM : Len(ev.trM[m]) # cfg.n, "C09", "number of samples")
  \cup If(\E l \in cfg.freeL : Len(ev.trL[l]) # cfg.n, "C09", "number of samples")
  \cup If(\E m \in cfg.freeM : Len(ev.trM[m]) = cfg.n /\ ev.trM[m] # trM[m], "C09", "recorded samples")
  \cup If(\E l \in cfg.freeL : Len(ev.trL[l]) = cfg.n
             /\ \E t \in 1..cfg.n : ~Near(ev.trL[l][t], trL[l][t]), "C09", "recorded samples")
  \cup If((\E m \in cfg.freeM : Len(ev.trM[m]) = cfg.n /\ ev.trM[m] = trM[m] /\ ~MeanOK(m, ev)), "C09", "mean")
  \cup If(\E l \in cfg.freeL : Len(ev.trL[l]) = cfg.n /\ ~MeanLOK(l, ev), "C09", "mean")
  \cup If(\E m \in DOMAIN val : m \notin cfg.freeM /\ ev.meanM[m] # val[m], "C09", "mean of a fixed member")
  \cup If(\E l \in DOMAIN lam : l \notin cfg.freeL /\ ~Near(ev.meanL[l], lam[l]), "C09", "mean of a fixed member")

\* the inference has been interrupted
StopBad(ev) ==
  IF ev.mask # mask THEN R("C29", "masks changed")
  ELSE If(~ev.decl, "C29", "declarations changed")
  \cup If(IF phase = "idle" THEN ev.val # val \/ ev.lam # lam ELSE ~InterruptedTo(ev.val, ev.lam), "C29", "interrupted state")

Go == IF Full THEN Done \/ AtMax ELSE pre + burn = e.total - cfg.n
CheckArgs == IF Ev.k = "C" THEN <<Ev.val, Ev.mask, Ev.lam>> ELSE <<val, mask, lam>>
AutoAny == \E j \in DOMAIN cfg.layers : Auto(cfg.layers[j])
CheckBad ==
  IF CleanedTo(Go /\ ~Done, CheckArgs[1], CheckArgs[2], CheckArgs[3]) THEN None
  ELSE IF ~AutoAny THEN ChangeBad(Ev)
  ELSE R("C12", IF Ev.k = "C" THEN "cleaning" ELSE "not cleaned")

\* --------------------------------------------------------------- one step
Advance == pos' = pos + 1 /\ UNCHANGED <<ck, idx>>
Stay == UNCHANGED <<ck, idx, pos>>
GiveUp(bad) == Report(bad) /\ NextLine /\ UNCHANGED ck
Foreign == ~Full /\ e.total < e.n + e.bmin      \* no such run: judged under C10

TraceNext ==
  /\ idx <= Hi(ck)
  /\ IF e.op = "err" THEN Report(R(Prop, "raised")) /\ NextLine /\ UNCHANGED ck
     ELSE IF e.op # "run" THEN Report({<<Prop, b>> : b \in Failed(e)}) /\ NextLine /\ UNCHANGED ck
     ELSE IF pos = -1 THEN Adopt
     ELSE IF pos = 0 THEN
       IF Rejected(Config)
       THEN GiveUp(If(e.ev[1].k # "R", "C11", "not rejected")
                   \cup If(e.ev[1].k = "R" /\ (e.ev[1].val # val \/ e.ev[1].lam # lam), "C11", "rejected too late"))
       ELSE IF e.ev[1].k = "R" THEN GiveUp(R(Prop, "raised"))
       ELSE IF Foreign THEN GiveUp(None)
       ELSE Begin(Config) /\ pos' = 1 /\ UNCHANGED <<ck, idx>>
     ELSE IF Iterating /\ todoM = {} /\ todoL = {} THEN EndIter /\ Stay
     ELSE IF phase = "check" THEN
       IF CheckBad # None THEN GiveUp(CheckBad)
       ELSE /\ CheckAs(Go, CheckArgs[1], CheckArgs[2], CheckArgs[3])
            /\ IF Ev.k = "C" THEN Advance ELSE Stay
     ELSE CASE Ev.k = "E" -> GiveUp(EndBad(Ev))
            [] Ev.k = "X" -> GiveUp(StopBad(Ev))
            [] Ev.k = "R" -> GiveUp(R(Prop, "raised"))
            [] Ev.k = "C" -> GiveUp(ChangeBad(Ev))
            [] phase = "idle" -> GiveUp(IF Full THEN R("C10", "continued") ELSE R("C09", "update after the last iteration"))
            [] Ev.k = "M" -> IF MBad(Ev) # None THEN GiveUp(MBad(Ev)) ELSE SampleMat(Ev.m, Ev.v) /\ Advance
            [] Ev.k = "L" -> IF LBad(Ev) # None THEN GiveUp(LBad(Ev)) ELSE UpdLam(Ev.l, Ev.x, Ev.d) /\ Advance
=============================================================================
