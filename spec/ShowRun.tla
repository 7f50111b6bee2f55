------------------------------- MODULE ShowRun -------------------------------
EXTENDS Show, Events
=============================================================================
