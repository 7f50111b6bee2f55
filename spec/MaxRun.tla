------------------------------- MODULE MaxRun -------------------------------
EXTENDS Max, Events
=============================================================================
