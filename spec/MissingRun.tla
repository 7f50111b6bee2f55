----------------------------- MODULE MissingRun -----------------------------
(* Observations of machines with many missing cells, and pairs of machines one *)
(* of which lacks the cells that are missing in the other (C23).               *)
EXTENDS HistoryRun
Ib == INSTANCE Ibp
FailedMissing(e) == IF e.op \in {"row", "sweep", "u", "trace"} THEN Ib!FailedIbp(e) ELSE FailedHistory(e)
=============================================================================
