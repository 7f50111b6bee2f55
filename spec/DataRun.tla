------------------------------ MODULE DataRun -------------------------------
EXTENDS Data, Events
=============================================================================
