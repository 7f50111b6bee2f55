----------------------------- MODULE OutputsRun -----------------------------
EXTENDS Outputs, Events
=============================================================================
