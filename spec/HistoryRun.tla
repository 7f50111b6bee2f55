----------------------------- MODULE HistoryRun -----------------------------
(* Observations made in the middle of a machine's history (C21), in machines   *)
(* with missing data (C23), and pairs of behaviours that must be equal because *)
(* they differ only in what must not matter (C21, C22, C23, C25).              *)
EXTENDS Conform, Events
Mx == INSTANCE Max
Th == INSTANCE Threshold
\* e.a, e.b: the two behaviours, aspect by aspect
FailedTwin(e) ==
  IF DOMAIN e.a # DOMAIN e.b THEN {"aspects"}
  ELSE UNION {Clause(k, e.a[k] = e.b[k]) : k \in DOMAIN e.a}
\* measured numbers (micro), equal up to rounding
FailedNear(e) == Clause(e.what, Len(e.a) = Len(e.b) /\ \A j \in DOMAIN e.a : Abs(e.a[j] - e.b[j]) <= e.tol)
FailedHistory(e) ==
  CASE e.op = "site"    -> FailedSite(e)
    [] e.op = "lbda"    -> FailedLbda(e)
    [] e.op = "maxsite" -> Mx!FailedMaxSite(e)
    [] e.op = "maxlam"  -> Mx!FailedMaxLam(e)
    [] e.op = "twin"    -> FailedTwin(e)
    [] e.op = "near"    -> FailedNear(e)
    [] OTHER            -> Th!FailedThreshold(e)
=============================================================================
