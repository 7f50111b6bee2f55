----------------------------- MODULE ConformRun -----------------------------
(* Trace walker over observations, judged by the clauses of Conform.         *)
EXTENDS Conform, Events
=============================================================================
