------------------------------- MODULE IbpRun -------------------------------
EXTENDS Ibp, Events
FailedIbpOut(e) == IF e.op \in {"out", "mean"} THEN FailedOut(e) ELSE FailedIbp(e)
=============================================================================
