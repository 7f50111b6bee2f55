------------------------------- MODULE Events -------------------------------
(* Walks recorded observations of the implementation.  The trace is cut into *)
(* chunks consumed independently (one initial state each).  Failed(e) is the *)
(* set of names of the clauses that observation e violates; every            *)
(* observation is consumed, every violated clause is reported.               *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
CONSTANT Failed(_)
VARIABLES ck, pos
Trace == ndJsonDeserialize(IOEnv.TRACE)
NC == atoi(IOEnv.CHUNKS)
CS == (Len(Trace) + NC - 1) \div NC
Lo(c) == (c - 1) * CS + 1
Hi(c) == IF c * CS < Len(Trace) THEN c * CS ELSE Len(Trace)
Report(idx, bad) == \A b \in bad : PrintT(<<"VIOL", idx, b>>)
EvInit == ck \in 1..NC /\ pos = Lo(ck)
EvNext == /\ pos <= Hi(ck)
          /\ LET e == Trace[pos]
             IN Report(pos, IF e.op = "err" THEN {"raised"} ELSE Failed(e))
          /\ pos' = pos + 1
          /\ UNCHANGED ck
=============================================================================
